// Deterministic simulation runtime.
//
// The library under test is compiled with thread-sanitizer instrumentation, but this file, not libtsan, implements the
// instrumentation's entry points.  Together with interposed pthread, futex, clock, sleep and allocation functions they make
// every thread interaction a decision of one seeded scheduler.  Exactly one simulated thread runs at any time.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "simrt_int.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <signal.h>
#include <limits.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <sys/auxv.h>

extern "C" { void *__real_memcpy(void*,const void*,size_t); void *__real_memmove(void*,const void*,size_t); void *__real_memset(void*,int,size_t); }
#define memcpy __real_memcpy
#define memset __real_memset
#define likely(x) __builtin_expect(!!(x),1)
#define unlikely(x) __builtin_expect(!!(x),0)

namespace sim {
const char *const fault_names[F__COUNT] = {
    "spurious_wake","cas_spurious","clock_jump","thread_stall","late_timer",
    "activate_throw","work_throw","slot_throw","call_throw","handler_throw",
    "stream_fragment","stream_delay","stream_cut","stream_corrupt","stream_write_err",
    "mmap_fail","mmap_moved","open_fail","ftruncate_fail","close_fail","stat_fail",
    "eintr","lock_fail","holder_crash",
    "dns_fail","dns_slow","connect_refused","connect_hang","conn_reset","net_fragment","net_delay",
    "late_release","malloc_fail","thread_create_fail","consumer_stall","deactivate_throw",
    "read_fail","write_fail","dlopen_fail","launch_fail","child_crash","rename_fail","bind_fail","send_fail"
};
World *World::head=nullptr;
World::World(const char*n, void(*f)(void)):name(n),fn(f),next(head){head=this;}
}
using namespace sim;

/*====================================================================== raw kernel access */
static inline long raw6(long n,long a,long b,long c,long d,long e,long f)
{
    long r; register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f;
    asm volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
    return r;
}
long sim_raw_syscall(long n,long a,long b,long c,long d,long e,long f){return raw6(n,a,b,c,d,e,f);}
static void fwait(int *p,int v){ raw6(SYS_futex,(long)p,FUTEX_WAIT_PRIVATE,v,0,0,0); }
static void fwake(int *p){ raw6(SYS_futex,(long)p,FUTEX_WAKE_PRIVATE,1,0,0,0); }

/*====================================================================== heap */
static const uintptr_t HEAP_BASE=0x200000000000ull;
static const size_t HEAP_SIZE=16ull<<30;
static const uintptr_t SHADOW_BASE=0x210000000000ull; // 1 byte per 16
static const uintptr_t SYNCF_BASE =0x211000000000ull; // 1 byte per 16: a sync variable lives here
static const uintptr_t RACE_BASE  =0x220000000000ull; // 16 bytes per 8 (optional race shadow)
static uint8_t *const shadow=(uint8_t*)SHADOW_BASE;
static uint8_t *const syncf=(uint8_t*)SYNCF_BASE;
struct Hdr { uint32_t magic; uint32_t cls; uint64_t size; uint64_t start; uint64_t pad; };
enum : uint32_t { M_LIVE=0xA11C0DE1u, M_FREE=0xF4EEF4EEu };
static uintptr_t heap_top=0; static bool heap_ready=false;
static int heap_lk=0;
enum { NCLS=160, QUAR=1<<14 };
static void *freelist[NCLS];
static size_t cls_size[NCLS]; static int ncls=0;
static Hdr *quar[QUAR]; static unsigned quar_h=0,quar_t=0; static size_t quar_bytes=0;
static size_t live_bytes=0, live_blocks=0;
static uint8_t fill_byte=0xCB;

static void hlock(){ while(__atomic_exchange_n(&heap_lk,1,__ATOMIC_ACQUIRE)) raw6(SYS_sched_yield,0,0,0,0,0,0); }
static void hunlock(){ __atomic_store_n(&heap_lk,0,__ATOMIC_RELEASE); }
static void *mapfix(uintptr_t at,size_t n)
{
    void *p=(void*)raw6(SYS_mmap,(long)at,(long)n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    if((uintptr_t)p!=at){ static const char m[]="simrt: cannot map fixed region\n"; raw6(SYS_write,2,(long)m,sizeof m-1,0,0,0); raw6(SYS_exit_group,97,0,0,0,0,0); }
    return p;
}
static void heap_init()
{
    mapfix(HEAP_BASE,HEAP_SIZE); mapfix(SHADOW_BASE,HEAP_SIZE/16); mapfix(SYNCF_BASE,HEAP_SIZE/16);
    heap_top=HEAP_BASE+4096;
    size_t s=16; while(s<=1024){cls_size[ncls++]=s; s+=16;}
    s=1024; while(ncls<NCLS-4 && s<(4ull<<30)){ for(int k=1;k<=4;k++) cls_size[ncls++]=s+s/4*k; s*=2; }
    heap_ready=true;
}
static int cls_of(size_t n)
{
    if(n==0) n=1;
    if(n<=1024) return (int)((n+15)/16-1);
    int c=64; while(c<ncls && cls_size[c]<n) c++;
    return c;
}
static void sync_forget(uintptr_t a,size_t n);
static void race_forget(uintptr_t a,size_t n);
// block layout: [Hdr 32 bytes][payload (aligned)][>=16 redzone]
static void *h_alloc(size_t n,size_t align)
{
    if(!heap_ready) heap_init();
    if(n>(1ull<<32)) return nullptr;
    size_t want=n+(align>16?align:0);
    int c=cls_of(want); if(c>=ncls) return nullptr;
    uintptr_t base;
    if(freelist[c]){ base=(uintptr_t)freelist[c]; freelist[c]=*(void**)(base+32); }
    else { base=heap_top; uintptr_t top=(base+32+cls_size[c]+16+15)&~15ull; if(top>HEAP_BASE+HEAP_SIZE) return nullptr; heap_top=top; }
    uintptr_t u=base+32; if(align>16) u=(u+align-1)&~(align-1);
    Hdr *h=(Hdr*)(u-32); h->magic=M_LIVE; h->cls=c; h->size=n; h->start=base;
    uintptr_t g=(u-HEAP_BASE)>>4; size_t full=n>>4; memset(shadow+g,0xFF,full); if(n&15) shadow[g+full]=(uint8_t)(n&15);
    memset((void*)u,fill_byte,n<4096?n:4096);
    live_bytes+=n; live_blocks++;
    return (void*)u;
}
static void h_recycle(Hdr*h)
{
    uintptr_t base=h->start; int c=h->cls; quar_bytes-=cls_size[c];
    *(void**)(base+32)=freelist[c]; freelist[c]=(void*)base;
}
static void bad_free(void*p,const char*why);
static void h_free(void*p)
{
    uintptr_t u=(uintptr_t)p;
    if(u-HEAP_BASE>=HEAP_SIZE) return; // not ours
    Hdr*h=(Hdr*)(u-32);
    if(h->magic!=M_LIVE){ bad_free(p,h->magic==M_FREE?"double free":"invalid free"); return; }
    h->magic=M_FREE; size_t n=h->size; live_bytes-=n; live_blocks--;
    uintptr_t g=(u-HEAP_BASE)>>4; size_t gn=(n+15)>>4;
    sync_forget(u,n); race_forget(u,n);
    memset(shadow+g,0,gn); memset(p,0xDD,n<65536?n:65536);
    quar[quar_t++&(QUAR-1)]=h; quar_bytes+=cls_size[h->cls];
    while(quar_t-quar_h>=QUAR || quar_bytes>(24u<<20)){ h_recycle(quar[quar_h++&(QUAR-1)]); }
}
static bool big_alloc(size_t n); static size_t alloc_limit=~(size_t)0;
void sim::set_alloc_limit(size_t n){ alloc_limit=n; }
extern "C" {
void *malloc(size_t n){ if(__builtin_expect(n>alloc_limit,0)&&big_alloc(n)){ errno=ENOMEM; return nullptr; } hlock(); void*p=h_alloc(n,16); hunlock(); if(!p) errno=ENOMEM; return p; }
void free(void*p){ if(!p) return; int e=errno; hlock(); h_free(p); hunlock(); errno=e; }
void *calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)){errno=ENOMEM;return nullptr;} void*p=malloc(n); if(p) memset(p,0,n); return p; }
void *realloc(void*o,size_t n){ if(!o) return malloc(n); if(!n){free(o);return nullptr;}
    uintptr_t u=(uintptr_t)o; if(u-HEAP_BASE>=HEAP_SIZE) return nullptr; Hdr*h=(Hdr*)(u-32); size_t os=h->size; void*p=malloc(n); if(!p) return nullptr; memcpy(p,o,os<n?os:n); free(o); return p; }
void *memalign(size_t al,size_t n){ hlock(); void*p=h_alloc(n,al<16?16:al); hunlock(); return p; }
void *aligned_alloc(size_t al,size_t n){ return memalign(al,n); }
int posix_memalign(void**o,size_t al,size_t n){ void*p=memalign(al,n); if(!p) return ENOMEM; *o=p; return 0; }
void *valloc(size_t n){ return memalign(4096,n); }
size_t malloc_usable_size(void*p){ if(!p) return 0; return ((Hdr*)((uintptr_t)p-32))->size; }
}
size_t sim::heap_live_bytes(void){return live_bytes;}
size_t sim::heap_live_blocks(void){return live_blocks;}
static inline bool heap_ok(uintptr_t off,size_t n)
{
    while(n){ uint8_t s=shadow[off>>4]; size_t o=off&15; size_t k=16-o; if(k>n) k=n; if(s!=0xFF && o+k>s) return false; off+=k; n-=k; }
    return true;
}
bool sim::heap_is_valid(const void*p,size_t n){ uintptr_t off=(uintptr_t)p-HEAP_BASE; if(off>=HEAP_SIZE) return true; return heap_ok(off,n); }

/*====================================================================== simulated threads */
enum { NT=128, STK=1<<20, RSTK=192<<10, GUARD=64<<10, SLOT=GUARD+STK+GUARD+RSTK };
static const uintptr_t STACK_BASE=0x230000000000ull;
// Simulated threads are coroutines of one kernel thread.  Each also owns a parked real thread, whose only purpose is to provide
// the thread-local storage block (and to run its destructors at thread exit); a switch swaps registers, stack and FS base.
extern "C" { void sim_swap(void**save,void*to,uint64_t fs); extern int sim_have_fsgs; int sim_have_fsgs=0; }
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8,%rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    cmpl $0,sim_have_fsgs(%rip)
    je 1f
    wrfsbase %rdx
    jmp 2f
1:  movl $158,%eax
    movl $0x1002,%edi
    movq %rdx,%rsi
    syscall
2:  fldcw 4(%rsp)
    ldmxcsr (%rsp)
    addq $8,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_swap,.-sim_swap
.globl sim_fiber_start
sim_fiber_start:
    .cfi_startproc
    .cfi_undefined rip
    xorl %ebp,%ebp
    movq %r12,%rdi
    call sim_fiber_main
    hlt
    .cfi_endproc
)");
extern "C" void sim_fiber_start(void);
enum TState { T_FREE, T_RUN, T_BLOCK, T_EXITED };
struct Thr {
    int id; TState st; int go; int parked; void*sp; pthread_t pt; void*(*fn)(void*); void*arg; void*ret;
    const void *waddr; int wkind; uint64_t deadline; int wreason; // 0 signalled 1 timeout 2 spurious
    bool detached, joined, finished, realjoined; Thr *join_first; Thr *joiner; uint64_t serial;
    const void *spin_addr; unsigned spin_cnt; uint64_t run_len; int prio; uint64_t stall_until; int nosched; uint64_t ready, waited; int proc;
    uint32_t vc[NT]; uint32_t rel_fence[NT]; bool has_fence; uint32_t acq_pending[NT]; bool has_acq;
    unsigned depth; uint64_t stk[128]; char name[24];
};
static Thr T[NT]; static int tmax=0; static Thr *cur=nullptr; static __thread Thr *me=nullptr;
static bool g_active=false; static Shared *sh=nullptr; static const RunSpec *specp=nullptr;
#define spec (*specp)
static uint64_t tserial=0; static bool quiet_=false; static unsigned quiet_run_=0; static uint64_t qsteps_=0;
static uint64_t step_=0, vtime=0, tick=100, next_deadline=~0ull; static int64_t real_off=0;
static uint64_t cap_random=600000, cap_fair=6000000; static bool fair=false; static uint64_t fair_start=0;
static long plain_left=1000; static long plain_mean=0; static uint64_t hash_=1469598103934665603ull, swhash_=1469598103934665603ull;
static bool faults_on=true; static uint32_t fkind_scale[F__COUNT]; static bool fkind_enabled[F__COUNT]; static uint32_t fkind_idx[F__COUNT]; static uint64_t fkind_last[F__COUNT];
static uint64_t last_pc=0; static const char *race_props=nullptr;

struct Rng { uint64_t s; uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);} 
    uint64_t below(uint64_t n){ return n?next()%n:0; } };
static Rng r_sched,r_work,r_fault,r_plain; static uint64_t g_seed;
static uint64_t mix(uint64_t a,uint64_t b){ Rng r{a^(b*0xD6E8FEB86659FD93ull)}; r.next(); return r.next(); }
static inline void hmix(uint64_t &h,uint64_t v){ h^=v; h*=1099511628211ull; h^=h>>29; }

/*---------------------------------------------------------------- violation and end of run */
static void finish(int outcome) __attribute__((noreturn));
static void finish(int outcome)
{
    sh->steps=step_; sh->vtime=vtime; sh->hash=hash_; sh->swhash=swhash_; sh->fair_used=fair; sh->outcome=outcome;
    raw6(SYS_exit_group,0,0,0,0,0,0); __builtin_unreachable();
}
static void take_stack()
{
    Thr*t=me?me:cur; sh->nstack=0; if(!t) return; sh->vthread=t->id;
    unsigned d=t->depth<128?t->depth:128; for(unsigned i=0;i<d && sh->nstack<24;i++) sh->stack[sh->nstack++]=t->stk[d-1-i];
}
bool sim::property_is(const char*id){ return !strcmp(spec.property,id); }
static bool prop_match(const char*props)
{
    if(props[0]=='*') return true; const char*p=spec.property; size_t n=strlen(p); const char*q=props;
    if(p[0]=='*') return true;
    while((q=strstr(q,p))){ if((q==props||q[-1]==' ')&&(q[n]==0||q[n]==' ')) return true; q+=n; }
    return false;
}
static void(*dump_fn)(void*)=nullptr; static void*dump_arg=nullptr;
void sim::set_dump(void(*f)(void*),void*a){ dump_fn=f; dump_arg=a; }
static void vviolate(const char*props,const char*sig,const char*fmt,va_list ap) __attribute__((noreturn));
static void vviolate(const char*props,const char*sig,const char*fmt,va_list ap)
{
    if(!sh){ vfprintf(stderr,fmt,ap); abort(); }
    g_active=false;
    if(spec.verbose&&dump_fn){ auto f=dump_fn; dump_fn=nullptr; f(dump_arg); }
    if(spec.verbose>1) for(int i=0;i<tmax;i++) if(T[i].st==T_RUN||T[i].st==T_BLOCK){ char b[1500]; int o=snprintf(b,sizeof b,"STACK T%d %s:",i,T[i].st==T_RUN?"run":"blocked"); unsigned d=T[i].depth<128?T[i].depth:128; for(unsigned k=0;k<d&&k<24;k++) o+=snprintf(b+o,sizeof b-o," 0x%lx",(unsigned long)T[i].stk[d-1-k]-0x555555554000ul); b[o++]='\n'; raw6(SYS_write,2,(long)b,o,0,0,0); }
    snprintf(sh->signature,sizeof sh->signature,"%s",sig); vsnprintf(sh->message,sizeof sh->message,fmt,ap);
    take_stack(); hmix(hash_,step_);
    finish(prop_match(props)?RUN_VIOLATION:RUN_OTHER);
}
void sim::violate(const char*props,const char*sig,const char*fmt,...){ va_list ap; va_start(ap,fmt); vviolate(props,sig,fmt,ap); }
static bool big_alloc(size_t n){ if(!g_active||!me) return false; sim::count("allocations failed (too large)"); return true; }
static void bad_free(void*p,const char*why){ if(g_active){ hunlock(); sim::violate("*",why,"%s of heap block %p by thread %d",why,p,me?me->id:-1);} }
static void describe_blocked(char*b,size_t n)
{
    static const char*const wk[]={"-","mutex","cond","join","sleep","futex","once","guard","rwlock","io"};
    size_t o=0; b[0]=0; for(int i=0;i<tmax&&o<n-64;i++) if(T[i].st==T_BLOCK) o+=snprintf(b+o,n-o," T%d(%s):%s@%lx",i,T[i].name,wk[T[i].wkind],(unsigned long)T[i].waddr);
}
static void on_signal(int s,siginfo_t*si,void*)
{
    if(!sh) _exit(99);
    g_active=false; sh->sig=s; const char*n=s==SIGSEGV?"crash SIGSEGV":s==SIGABRT?"crash SIGABRT":s==SIGBUS?"crash SIGBUS":s==SIGFPE?"crash SIGFPE":"crash SIGILL";
    snprintf(sh->signature,sizeof sh->signature,"%s",n); snprintf(sh->message,sizeof sh->message,"%s at address %p in thread %d",n,si->si_addr,me?me->id:-1);
    take_stack(); finish(RUN_VIOLATION);
}

/*---------------------------------------------------------------- notes, counters, params, faults */
void sim::note(const char*fmt,...){ if(!spec.verbose) return; char b[512]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b-1,fmt,ap); va_end(ap); if(n>(int)sizeof b-2) n=sizeof b-2; b[n++]='\n';
    char h[64]; int k=snprintf(h,sizeof h,"[%llu %.6fs T%d] ",(unsigned long long)step_,vtime/1e9,me?me->id:-1); raw6(SYS_write,2,(long)h,k,0,0,0); raw6(SYS_write,2,(long)b,n,0,0,0); }
void sim::count(const char*name,uint64_t n){ for(uint32_t i=0;i<sh->ncounters;i++) if(!strcmp(sh->counters[i].name,name)){sh->counters[i].val+=n;return;}
    if(sh->ncounters<MAX_COUNTERS){ CounterRec&c=sh->counters[sh->ncounters++]; snprintf(c.name,sizeof c.name,"%s",name); c.val=n; } }
uint64_t sim::rnd(void){return r_work.next();}
uint64_t sim::rnd(uint64_t n){return r_work.below(n);}
bool sim::chance(uint64_t a,uint64_t b){return r_work.below(b)<a;}
double sim::rndf(void){return (r_work.next()>>11)*(1.0/9007199254740992.0);}
int64_t sim::param(const char*name,int64_t lo,int64_t hi)
{
    // each parameter has its own stream, so overriding one leaves the others alone
    uint64_t h=1469598103934665603ull; for(const char*c=name;*c;c++) hmix(h,(uint8_t)*c);
    int64_t v=lo+(int64_t)(mix(g_seed,h)%(uint64_t)(hi-lo+1));
    for(uint32_t i=0;i<spec.nparams;i++) if(!strcmp(spec.params[i].name,name)){ v=spec.params[i].val; if(v<lo)v=lo; if(v>hi)v=hi; }
    bool seen=false; for(uint32_t i=0;i<sh->nparams;i++) if(!strcmp(sh->params[i].name,name)) seen=true;
    if(!seen && sh->nparams<MAX_PARAMS){ ParamRec&p=sh->params[sh->nparams++]; snprintf(p.name,sizeof p.name,"%s",name); p.val=v; }
    return v;
}
void sim::enable_fault(FaultKind k){ fkind_enabled[k]=true; }
void sim::faults_off(void){ faults_on=false; }
bool sim::faults_enabled(void){ return faults_on; }
bool sim::fault(FaultKind k,uint64_t num,uint64_t den)
{
    if(!g_active||!fkind_enabled[k]||!faults_on) return false;
    uint32_t idx=fkind_idx[k]++; sh->fault_asked[k]++;
    bool fire=false;
    if(spec.replay){ static uint32_t cur_[F__COUNT]; uint32_t&i=cur_[k]; while(i<spec.nfaults&&!(spec.faults[i].kind==(uint32_t)k&&spec.faults[i].idx>=idx)) i++; fire=i<spec.nfaults&&spec.faults[i].idx==idx; }
    else if(fkind_scale[k]) { fire = r_fault.below(den*8) < num*fkind_scale[k]; }
    if(fire){ sh->fault_fired[k]++; fkind_last[k]=mix(g_seed,((uint64_t)(k+1)<<32)+idx); hmix(hash_,0xFA0000+k);
        if(sh->nfaults<MAX_FAULTS){ sh->faults[sh->nfaults].kind=k; sh->faults[sh->nfaults++].idx=idx; } else sh->overflow=1;
        if(spec.verbose) note("FAULT %s #%u",fault_names[k],idx); }
    return fire;
}
uint64_t sim::fault_value(FaultKind k,uint64_t n){ return n?fkind_last[k]%n:0; }

/*---------------------------------------------------------------- scheduler */
enum Policy { P_RANDOM, P_PCT, P_RR, P_STALL, P__N };
static Policy policy; static uint64_t pol_den=10; static uint64_t pct_points[8]; static int pct_n=0; static int pct_low=0; static uint64_t rr_q=1; static uint64_t fair_q=1;
static int stall_victim=-1; static uint64_t stall_period=0, stall_len=0;
static uint32_t rep_i=0; // replay cursor

static void record(uint64_t st,uint32_t kind,uint32_t v){ if(sh->nchoices<MAX_CHOICES){ Choice&c=sh->choices[sh->nchoices++]; c.step=st; c.kind=kind; c.val=v; } else sh->overflow=1; }
static bool lookup(uint64_t st,uint32_t kind,uint32_t &v)
{
    while(rep_i<spec.nchoices && spec.choices[rep_i].step<st) rep_i++;
    for(uint32_t i=rep_i;i<spec.nchoices&&spec.choices[i].step==st;i++) if(spec.choices[i].kind==kind){v=spec.choices[i].val;return true;}
    return false;
}
static inline bool runnable(const Thr&t){ return t.st==T_RUN; }
static int next_rr(int from){ for(int k=1;k<=tmax;k++){int i=(from+k)%tmax; if(runnable(T[i])) return i;} return -1; }
static int count_runnable(){int n=0;for(int i=0;i<tmax;i++) n+=runnable(T[i]);return n;}
static void recompute_deadline(){ next_deadline=~0ull; for(int i=0;i<tmax;i++) if(T[i].st==T_BLOCK&&T[i].deadline<next_deadline) next_deadline=T[i].deadline; }
static void wake_thr(Thr&t,int reason){ t.ready=vtime; t.st=T_RUN; t.wreason=reason; t.waddr=nullptr; t.deadline=~0ull; t.spin_cnt=0; }
static void wake_due(){ for(int i=0;i<tmax;i++) if(T[i].st==T_BLOCK&&T[i].deadline<=vtime) wake_thr(T[i],1); recompute_deadline(); }

// pick among runnable threads according to the exploration policy; 'forced' = the current thread may not continue
static int policy_pick(int self,bool forced,int kind)
{
    int cand[NT],n=0; for(int i=0;i<tmax;i++) if(runnable(T[i])&&!(forced&&i==self)) cand[n++]=i;
    if(n==0) return -1; if(n==1) return cand[0];
    if(fair){ if(forced) return next_rr(self); if(T[self].run_len>=fair_q){ int k=next_rr(self); return k; } return self; }
    switch(policy){
    case P_RANDOM: if(!forced&&r_sched.below(pol_den)!=0) return self; return cand[r_sched.below(n)];
    case P_RR: if(!forced&&T[self].run_len<rr_q) return self; return forced?cand[r_sched.below(n)]:next_rr(self);
    case P_STALL: {
        if(stall_period&&step_%stall_period<stall_len){ int c2[NT],m=0; for(int i=0;i<n;i++) if((int)(T[cand[i]].serial%8)!=stall_victim) c2[m++]=cand[i]; if(m){ n=m; memcpy(cand,c2,sizeof(int)*m);} 
            bool selfok=false; for(int i=0;i<n;i++) if(cand[i]==self) selfok=true; if(selfok&&!forced&&r_sched.below(pol_den)!=0) return self; return cand[r_sched.below(n)]; }
        if(!forced&&r_sched.below(pol_den)!=0) return self; return cand[r_sched.below(n)]; }
    default: { // PCT with fairness demotion
        for(int i=0;i<pct_n;i++) if(pct_points[i]==step_){ T[self].prio=--pct_low; }
        if(T[self].run_len>2500||(forced&&kind==1)) { T[self].prio=--pct_low; T[self].run_len=0; }
        int b=cand[0]; for(int i=1;i<n;i++) if(T[cand[i]].prio>T[b].prio) b=cand[i];
        return b; }
    }
}
static void reap(Thr*self);
static void switch_to(int k,uint64_t pc)
{
    Thr*self=me; Thr&n=T[k]; sh->switches++;
    { uint64_t h=mix(last_pc,pc)&(COV_BITS-1); sh->cov[h>>3]|=1u<<(h&7); }
    hmix(swhash_,((uint64_t)self->id<<16)|k); hmix(swhash_,pc);
    n.run_len=0; quiet_run_=0; cur=&n;
    if(self->st==T_RUN) self->ready=vtime;
    sim_swap(&self->sp,n.sp,(uint64_t)n.pt);
    if(vtime>self->ready) self->waited+=vtime-self->ready;
    if(unlikely(self->join_first!=nullptr)) reap(self);
}
static void enter_fair(){ fair=true; if(tick<2000) tick=2000; fair_start=step_; faults_on=false; }
static void check_caps()
{
    if(!fair){ if(step_>cap_random) enter_fair(); }
    else if(step_-fair_start>cap_fair){ char b[700]; describe_blocked(b,sizeof b); char r[300]; size_t o=0; r[0]=0; for(int i=0;i<tmax&&o<sizeof r-20;i++) if(runnable(T[i])) o+=snprintf(r+o,sizeof r-o," T%d(%s)",i,T[i].name);
        sim::violate("*","no progress","no completion after %llu further steps of fair fault-free scheduling (simulated time %.3fs); blocked:%s; runnable:%s",(unsigned long long)(step_-fair_start),vtime/1e9,b,r); }
}
// Choose who runs next. mode 0: optional preemption, 1: yield (spin), 2: blocked/exiting.
static int decide(int mode,int kind)
{
    int self=me->id;
    for(;;){
        if(mode==2){ if(count_runnable()==0){
                recompute_deadline();
                if(next_deadline==~0ull){ char b[900]; describe_blocked(b,sizeof b); sim::violate("*","deadlock","deadlock: every thread is blocked:%s",b); }
                vtime=next_deadline; wake_due(); step_++; check_caps(); continue; } }
        break;
    }
    bool forced=mode!=0; int dflt, pick; uint32_t v;
    if(mode==2) dflt=runnable(T[self])?self:next_rr(self);
    else if(mode==1) { dflt=next_rr(self); if(dflt<0) dflt=self; }
    else dflt=(T[self].run_len>3000)?next_rr(self):self;
    if(dflt<0) dflt=self;
    if(fair||spec.replay){
        pick=dflt;
        if(fair){ int k=policy_pick(self,forced,kind); if(k>=0) pick=k; }
        if(spec.replay&&lookup(step_,0,v)&&v<(uint32_t)tmax&&runnable(T[v])) pick=v;
        if(!fair&&pick!=dflt) record(step_,0,pick);
        return pick;
    }
    pick=policy_pick(self,forced,kind); if(pick<0) pick=dflt;
    if(pick!=dflt) record(step_,0,pick);
    return pick;
}
static inline void tick_time(){ vtime+=tick; if(unlikely(vtime>=next_deadline)) wake_due(); }
static int block(int wkind,const void*addr,uint64_t deadline,uint64_t pc);
static uint64_t stall_max=2000000, stall_den=400; static int stall_only=-1; // a thread loses its processor for a while
static void point(int kind,const void*addr,uint64_t pc,bool spin)
{
    if(!me||me->nosched) return;
    if(quiet_&&!spin){ if(unlikely((++qsteps_&4095)==0&&qsteps_>40000000)){ quiet_=false; enter_fair(); } if(++quiet_run_<150) return; quiet_run_=0; spin=true; vtime+=60000; }
    step_++; me->run_len++; tick_time(); hmix(hash_,(uint64_t)kind<<8|me->id); hmix(hash_,(uint64_t)addr);
    if(unlikely((step_&1023)==0)) check_caps();
    if(unlikely(fkind_enabled[F_THREAD_STALL])&&(stall_only<0||stall_only==me->id)&&sim::fault(F_THREAD_STALL,1,stall_den)){ uint64_t d=1+sim::fault_value(F_THREAD_STALL,stall_max); me->waited+=d; block(4,nullptr,vtime+d,pc); last_pc=pc; return; }
    int k=decide(spin?1:0,kind);
    if(k!=me->id){ if(!spin) sh->preempts++; switch_to(k,pc); }
    last_pc=pc;
}
static int block(int wkind,const void*addr,uint64_t deadline,uint64_t pc)
{
    Thr*t=me; t->st=T_BLOCK; t->wkind=wkind; t->waddr=addr; t->deadline=deadline; t->wreason=0; if(deadline<next_deadline) next_deadline=deadline;
    step_++; tick_time(); hmix(hash_,(uint64_t)(32+wkind)<<8|t->id); if(unlikely((step_&255)==0)) check_caps();
    int k=decide(2,0);
    if(k!=t->id) switch_to(k,pc); else t->run_len=0;
    return t->wreason;
}
static uint32_t pick_n(uint32_t n)
{
    if(n<=1) return 0; step_++; uint32_t v=0;
    if(spec.replay){ if(lookup(step_,1,v)&&v<n){ record(step_,1,v); return v; } return 0; }
    if(fair) return 0;
    v=r_sched.below(n); if(v) record(step_,1,v); return v;
}
static int wake_addr(const void*addr,int wkind,int n)
{
    int c[NT],m=0; for(int i=0;i<tmax;i++) if(T[i].st==T_BLOCK&&T[i].waddr==addr&&T[i].wkind==wkind) c[m++]=i;
    int done=0;
    while(m&&done<n){ int k=(n>=m+done)?0:pick_n(m); wake_thr(T[c[k]],0); c[k]=c[--m]; done++; }
    return done;
}
// interface for the simulated kernel (files, sockets)
bool sim_in(void){ return g_active&&me; }
int sim_block_io(const void*addr,uint64_t deadline){ return block(9,addr,deadline,(uint64_t)__builtin_return_address(0)); }
int sim_wake_io(const void*addr){ return wake_addr(addr,9,NT); }
void sim_point(int kind,const void*addr){ if(g_active) point(kind,addr,(uint64_t)__builtin_return_address(0),false); }
uint64_t sim_vtime(void){return vtime;}

uint64_t sim::now_ns(void){return vtime;}
uint64_t sim::steps(void){return step_;}
uint64_t sim::waited_ns(void){return me?me->waited:0;}
void sim::set_process(int p){ if(me) me->proc=p; }
int sim::process(void){ return me?me->proc:0; }
void sim::enable_stalls(uint64_t oneIn,uint64_t maxNs,int only){ stall_only=only; fkind_enabled[F_THREAD_STALL]=true; stall_den=oneIn; stall_max=maxNs; }
int sim::self(void){return me?me->id:-1;}
uint64_t sim::serial(void){return me?me->serial:~0ull;}
bool sim::in_fair_phase(void){return fair;}
int sim::live_threads(void){int n=0;for(int i=0;i<tmax;i++) n+=(T[i].st==T_RUN||T[i].st==T_BLOCK);return n;}
void sim::yield(void){ if(g_active&&me) point(3,nullptr,(uint64_t)__builtin_return_address(0),false); }
void sim::sleep_ns(uint64_t ns){ if(g_active&&me) block(4,nullptr,vtime+ns,(uint64_t)__builtin_return_address(0)); }
void sim::set_caps(uint64_t a,uint64_t b){cap_random=a;cap_fair=b;}
void sim::quiet(bool on){ quiet_=on; }
void sim::nosched_begin(void){ if(me) me->nosched++; }
void sim::nosched_end(void){ if(me) me->nosched--; }

/*====================================================================== vector clocks */
struct SyncVar { uintptr_t addr; uint32_t vc[NT]; uint32_t et,ec; }; // ec!=0: vc is exactly thread et's clock at its time ec
enum { SV_N=1<<15 };
static SyncVar *sv_pool=nullptr; static uint32_t sv_used=0; static uint32_t sv_free[SV_N]; static uint32_t sv_nfree=0;
enum { SVH=1<<17 };
static uint32_t *sv_hash=nullptr; // index+1, or 0xFFFFFFFF tombstone
static uint32_t sv_tomb=0;
static inline uint32_t svh(uintptr_t a){ a^=a>>17; a*=0xff51afd7ed558ccdull; return (uint32_t)(a>>32)&(SVH-1); }
static SyncVar *sv_find(uintptr_t a,bool create)
{
    uint32_t h=svh(a),first=~0u; 
    for(;;h=(h+1)&(SVH-1)){ uint32_t e=sv_hash[h]; if(e==0) break; if(e==0xFFFFFFFFu){ if(first==~0u) first=h; continue; } if(sv_pool[e-1].addr==a) return &sv_pool[e-1]; }
    if(!create) return nullptr;
    uint32_t ix; if(sv_nfree) ix=sv_free[--sv_nfree]; else if(sv_used<SV_N) ix=sv_used++; else return nullptr;
    if(first!=~0u){ h=first; sv_tomb--; } sv_hash[h]=ix+1; SyncVar*s=&sv_pool[ix]; s->addr=a; s->ec=0; memset(s->vc,0,sizeof s->vc);
    uintptr_t off=a-HEAP_BASE; if(off<HEAP_SIZE) syncf[off>>4]|=1;
    return s;
}
static void sv_del(uintptr_t a)
{
    uint32_t h=svh(a); for(;;h=(h+1)&(SVH-1)){ uint32_t e=sv_hash[h]; if(e==0) return; if(e!=0xFFFFFFFFu&&sv_pool[e-1].addr==a){ sv_free[sv_nfree++]=e-1; sv_hash[h]=0xFFFFFFFFu; 
        if(sv_hash[(h+1)&(SVH-1)]==0){ while(sv_hash[h]==0xFFFFFFFFu){ sv_hash[h]=0; h=(h-1)&(SVH-1);} } return; } }
}
static void sync_forget(uintptr_t a,size_t n)
{
    if(!g_active) return;
    size_t g=(a-HEAP_BASE)>>4,e=(a+n-HEAP_BASE+15)>>4; if(e-g>1048576) e=g+1048576;
    for(;g<e;g++) if(syncf[g]){ bool h=syncf[g]&2; if(syncf[g]&1) for(int k=0;k<16;k++) sv_del(HEAP_BASE+(g<<4)+k); syncf[g]=h?2:0; if(h) for(int k=0;k<16;k++) sim::hb_forget((void*)(HEAP_BASE+(g<<4)+k)); }
}
__attribute__((target("sse4.1"),optimize("O3"))) static void vc_join(uint32_t*__restrict d,const uint32_t*__restrict s){ int n=(tmax+7)&~7; for(int i=0;i<n;i++) d[i]=s[i]>d[i]?s[i]:d[i]; }
static inline bool sv_known(const SyncVar*s){ return s->ec&&me->vc[s->et]>=s->ec; }
static void hb_acquire(const void*a){ if(!me) return; SyncVar*s=sv_find((uintptr_t)a,false); if(s&&!sv_known(s)) vc_join(me->vc,s->vc); }
static inline void sv_set(SyncVar*s){ memcpy(s->vc,me->vc,sizeof(uint32_t)*((tmax+7)&~7)); s->et=me->id; s->ec=me->vc[me->id]; }
static void hb_release(const void*a){ if(!me) return; SyncVar*s=sv_find((uintptr_t)a,true); if(s){ if(sv_known(s)) sv_set(s); else { vc_join(s->vc,me->vc); s->ec=0; } } me->vc[me->id]++; }
static void hb_release_store(const void*a){ if(!me) return; SyncVar*s=sv_find((uintptr_t)a,true); if(s) sv_set(s); me->vc[me->id]++; }
void sim_acquire(const void*a){ if(g_active) hb_acquire(a); }
void sim_release(const void*a){ if(g_active&&me) hb_release(a); }
static void hb_acquire_atomic(const void*a,int mo)
{
    SyncVar*s=sv_find((uintptr_t)a,false); if(!s||sv_known(s)) return;
    if(mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST) vc_join(me->vc,s->vc);
    else { if(!me->has_acq){ memset(me->acq_pending,0,sizeof me->acq_pending); me->has_acq=true; } vc_join(me->acq_pending,s->vc); }
}
static inline bool is_rel(int mo){ return mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }

// user annotated data
struct HbVar { uintptr_t key; uint32_t wt,wc; uint32_t rd[NT]; bool hasw; };
enum { HB_N=1<<13 };
static HbVar *hbv=nullptr; 
static HbVar *hb_get(uintptr_t k,bool create){ uint32_t h=svh(k*31+7)&(HB_N-1); for(unsigned n=0;n<HB_N;n++,h=(h+1)&(HB_N-1)){ if(hbv[h].key==k) return &hbv[h]; if(hbv[h].key==0){ if(!create) return nullptr; memset(&hbv[h],0,sizeof(HbVar)); hbv[h].key=k; uintptr_t off=k-HEAP_BASE; if(off<HEAP_SIZE) syncf[off>>4]|=2; return &hbv[h]; } } return nullptr; }
void sim::hb_write(const void*key,const char*props,const char*what)
{
    if(!g_active||!me) return; HbVar*v=hb_get((uintptr_t)key,true); if(!v) return;
    if(v->hasw&&v->wt!=(uint32_t)me->id&&me->vc[v->wt]<v->wc) violate(props,"unsynchronised write-write","%s: write by thread %d is not ordered after the write by thread %u",what,me->id,v->wt);
    for(int i=0;i<tmax;i++) if(i!=me->id&&v->rd[i]>me->vc[i]) violate(props,"unsynchronised read-write","%s: write by thread %d is not ordered after the read by thread %d",what,me->id,i);
    v->hasw=true; v->wt=me->id; v->wc=me->vc[me->id]; memset(v->rd,0,sizeof v->rd);
}
void sim::hb_read(const void*key,const char*props,const char*what)
{
    if(!g_active||!me) return; HbVar*v=hb_get((uintptr_t)key,true); if(!v) return;
    if(v->hasw&&v->wt!=(uint32_t)me->id&&me->vc[v->wt]<v->wc) violate(props,"unsynchronised write-read","%s: read by thread %d is not ordered after the write by thread %u",what,me->id,v->wt);
    v->rd[me->id]=me->vc[me->id];
}
void sim::hb_forget(const void*key){ HbVar*v=hb_get((uintptr_t)key,false); if(v){ v->hasw=false; memset(v->rd,0,sizeof v->rd); } }

void sim_forget_range(uintptr_t a,size_t n){ for(unsigned h=0;h<HB_N;h++) if(hbv[h].key>=a&&hbv[h].key<a+n){ hbv[h].hasw=false; memset(hbv[h].rd,0,sizeof hbv[h].rd); } }

// optional: race detection on heap words (last write epoch, last read epoch per 8 bytes)
struct RCell { uint16_t wt,rt; uint32_t wc; uint32_t rc; uint8_t wm,rm; uint16_t pad; };
static RCell *const rcell=(RCell*)RACE_BASE; static bool race_mapped=false;
static bool race_free_only=false;
void sim::set_heap_races(const char*props){ if(!race_mapped){ mapfix(RACE_BASE,HEAP_SIZE*2); race_mapped=true; } race_props=props; race_free_only=false; }
// only accesses that nothing orders before the free of the block they touch (a use after free in another schedule)
void sim::set_free_races(const char*props){ set_heap_races(props); race_free_only=true; }
static bool race_known(unsigned t,uint32_t c){ return t==(unsigned)me->id||me->vc[t]>=c||(me->has_acq&&me->acq_pending[t]>=c); }
static void race_forget(uintptr_t a,size_t n)
{
    if(!race_props) return; size_t g=(a-HEAP_BASE)>>3,e=(a+n-HEAP_BASE+7)>>3;
    if(race_free_only&&g_active&&me&&!me->nosched) for(size_t i=g;i<e;i++){ const RCell&r=rcell[i]; bool w=r.wc&&!race_known(r.wt,r.wc),d=r.rc&&!race_known(r.rt,r.rc); if(!w&&!d) continue;
        const int t=w?r.wt:r.rt; unsigned long at=(i-g)*8; memset(&rcell[g],0,(e-g)*sizeof(RCell));
        sim::violate(race_props,"access not ordered before free","thread %d frees the block of %lu bytes at %lx; nothing orders the %s at offset %lu by thread %d before that",me->id,(unsigned long)n,(unsigned long)a,w?"write":"read",at,t); }
    memset(&rcell[g],0,(e-g)*sizeof(RCell));
}
static void race_check(uintptr_t off,unsigned n,bool w)
{
    if(!me||me->nosched) return; int id=me->id; uint32_t c=me->vc[id];
    if(unlikely(spec.watch&&HEAP_BASE+off<=spec.watch&&HEAP_BASE+off+n>spec.watch)){ char b[800]; int o=snprintf(b,sizeof b,"WATCH T%d %s c%u",id,w?"w":"r",c); unsigned d=me->depth<128?me->depth:128; for(unsigned k=0;k<d&&k<8;k++) o+=snprintf(b+o,sizeof b-o," 0x%lx",(unsigned long)me->stk[d-1-k]-0x555555554000ul); sim::note("%s",b); }
    if(race_free_only){ for(size_t i=off>>3,e=(off+n+7)>>3;i<e;i++){ RCell&r=rcell[i]; if(w){ const uintptr_t lo=i<<3; uint8_t m=0; for(unsigned b=0;b<8;b++) if(lo+b>=off&&lo+b<off+n) m|=1u<<b; if(r.wc&&r.wt!=id&&(r.wm&m)&&me->vc[r.wt]<r.wc) sim::violate("*","write-write race","unsynchronised write of heap address %lx by thread %d after a write by thread %d",(unsigned long)(HEAP_BASE+lo),id,r.wt); r.wm=(r.wt==id&&r.wc==c)?(r.wm|m):m; r.wt=id; r.wc=c; } else if(!r.rc||r.rt==id||me->vc[r.rt]>=r.rc){ r.rt=id; r.rc=c; } } return; }
    while(n){ unsigned o=off&7,k=8-o; if(k>n) k=n; uint8_t m=(uint8_t)(((1u<<k)-1)<<o); RCell&r=rcell[off>>3];
        if(r.wc&&r.wt!=id&&(r.wm&m)&&me->vc[r.wt]<r.wc) sim::violate(race_props,"data race","unsynchronised %s of heap address %lx by thread %d after a write by thread %d",w?"write":"read",(unsigned long)(HEAP_BASE+off),id,r.wt);
        if(w&&r.rc&&r.rt!=id&&(r.rm&m)&&me->vc[r.rt]<r.rc) sim::violate(race_props,"data race","unsynchronised write of heap address %lx by thread %d after a read by thread %d",(unsigned long)(HEAP_BASE+off),id,r.rt);
        if(w){ r.wt=id; r.wm=(r.wc==c&&r.wt==id)?(r.wm|m):m; r.wc=c; } else { r.rm=(r.rc==c&&r.rt==id)?(r.rm|m):m; r.rt=id; r.rc=c; }
        off+=k; n-=k; }
}

/*====================================================================== instrumentation entry points: plain memory */
static void plain_event(uint64_t pc)
{
    if(plain_mean){ plain_left=1+(long)r_plain.below(2*plain_mean); point(2,nullptr,pc,false); }
    else { plain_left=20000; if(me&&!me->nosched){ step_++; check_caps(); } }
}
static void heap_bad(uintptr_t a,unsigned n,int w,uint64_t pc)
{
    if(!g_active) return; Thr*t=me; if(t&&t->depth<128) t->stk[t->depth++]=pc;
    sim::violate("*","heap-use-after-free","%s of %u bytes at %p, which is not inside a live heap block (thread %d)",w?"write":"read",n,(void*)a,t?t->id:-1);
}
// In some runs threads are also switched at plain accesses of memory that another thread accessed last: where unprotected
// read-modify-writes lose updates.
static bool conflict_mode=false; static uint32_t conflict_den=8; static uint8_t conflict_last[1<<16];
static __attribute__((noinline)) void conflict(uintptr_t a,int w,uint64_t pc)
{
    Thr*t=me; if(!t||fair||quiet_||t->nosched) return;
    uint8_t&o=conflict_last[((a>>3)*0x9E3779B97F4A7C15ull)>>48]; const uint8_t id=(uint8_t)((t->id&63)+1);
    if((o&127)!=id) o=(o?128:0)|id; // 128: several threads access it
    if(w&&(o&128)&&r_plain.below(conflict_den)==0) point(2,nullptr,pc,false);
}
static inline __attribute__((always_inline)) void mem(void*p,unsigned n,int w,void*pc)
{
    if(unlikely(!g_active)) return;
    uintptr_t off=(uintptr_t)p-HEAP_BASE;
    if(off<HEAP_SIZE){ uint8_t s=shadow[off>>4]; if(unlikely(s!=0xFF||(off&15)+n>16)) { if(!heap_ok(off,n)) heap_bad((uintptr_t)p,n,w,(uint64_t)pc); }
        if(unlikely(race_props!=nullptr)) race_check(off,n,w); }
    if(unlikely(--plain_left<=0)) plain_event((uint64_t)pc);
    else if(unlikely(conflict_mode)) conflict((uintptr_t)p,w,(uint64_t)pc);
}
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init(void){}
void __tsan_func_entry(void*pc){ Thr*t=me; if(t){ if(t->depth<128) t->stk[t->depth]=(uint64_t)pc; t->depth++; } }
void __tsan_func_exit(void){ Thr*t=me; if(t&&t->depth) t->depth--; }
#define RW(n) void __tsan_read##n(void*p){mem(p,n,0,RA);} void __tsan_write##n(void*p){mem(p,n,1,RA);} \
  void __tsan_unaligned_read##n(void*p){mem(p,n,0,RA);} void __tsan_unaligned_write##n(void*p){mem(p,n,1,RA);} \
  void __tsan_volatile_read##n(void*p){mem(p,n,0,RA);} void __tsan_volatile_write##n(void*p){mem(p,n,1,RA);} \
  void __tsan_unaligned_volatile_read##n(void*p){mem(p,n,0,RA);} void __tsan_unaligned_volatile_write##n(void*p){mem(p,n,1,RA);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,unsigned long n){mem(p,(unsigned)n,0,RA);}
void __tsan_write_range(void*p,unsigned long n){mem(p,(unsigned)n,1,RA);}
void __tsan_vptr_update(void**p,void*){mem(p,8,1,RA);}
void __tsan_vptr_read(void**p){mem(p,8,0,RA);}
}
/*====================================================================== instrumentation entry points: atomics */
static inline void at_pre(const void*a,unsigned n,int w,void*pc)
{
    if(!g_active||!me) return;
    uintptr_t off=(uintptr_t)a-HEAP_BASE; if(off<HEAP_SIZE&&!heap_ok(off,n)) heap_bad((uintptr_t)a,n,w,(uint64_t)pc);
    sh->syncops++; point(1,a,(uint64_t)pc,false);
}
static inline void at_spin(const void*a,bool changed,void*pc)
{
    if(!g_active||!me) return; Thr*t=me;
    if(changed){ t->spin_cnt=0; return; }
    if(t->spin_addr==a){ if(++t->spin_cnt>=3){ t->spin_cnt=0; point(1,a,(uint64_t)pc,true); } } else { t->spin_addr=a; t->spin_cnt=0; }
}
// shared_ptr::use_count() is a relaxed load that the code base waits on: on a control block (virtual table pointer, then the count) it orders like an acquire
static bool is_use_count(const volatile void*p){ uintptr_t a=(uintptr_t)p,off=a-HEAP_BASE; if(off>=HEAP_SIZE||off<40) return false; Hdr*h=(Hdr*)(a-40); if(h->magic!=M_LIVE||h->size<16) return false; uintptr_t vt=*(uintptr_t*)(a-8); return vt>=0x555555554000ull&&vt-HEAP_BASE>=HEAP_SIZE; }
template<class X> static X a_load(const volatile X*p,int mo,void*pc){ at_pre((void*)p,sizeof(X),0,pc); X v=*p; if(sizeof(X)==4&&mo==__ATOMIC_RELAXED&&g_active&&is_use_count(p)) mo=__ATOMIC_ACQUIRE; if(g_active&&me) hb_acquire_atomic((void*)p,mo); at_spin((void*)p,false,pc); return v; }
template<class X> static void a_store(volatile X*p,X v,int mo,void*pc){ at_pre((void*)p,sizeof(X),1,pc); *p=v; if(g_active&&me){ if(is_rel(mo)) hb_release_store((void*)p); else { SyncVar*s=sv_find((uintptr_t)p,false); if(s){ s->ec=0; memset(s->vc,0,sizeof s->vc); if(me->has_fence) vc_join(s->vc,me->rel_fence);} else if(me->has_fence){ s=sv_find((uintptr_t)p,true); if(s){ s->ec=0; vc_join(s->vc,me->rel_fence);} } } me->spin_cnt=0; } }
static inline void rmw_hb(const void*p,int mo){ if(!g_active||!me) return; hb_acquire_atomic(p,mo); if(is_rel(mo)) hb_release(p); else if(me->has_fence){ SyncVar*s=sv_find((uintptr_t)p,true); if(s){ s->ec=0; vc_join(s->vc,me->rel_fence);} } }
template<class X,class F> static X a_rmw(volatile X*p,int mo,void*pc,F f){ at_pre((void*)p,sizeof(X),1,pc); X o=*p; X n=f(o); *p=n; rmw_hb((void*)p,mo); at_spin((void*)p,n!=o,pc); return o; }
template<class X> static bool a_cas(volatile X*p,X*e,X v,int mo,int fmo,bool weak,void*pc)
{
    at_pre((void*)p,sizeof(X),1,pc); X o=*p;
    bool ok=o==*e; if(ok&&weak&&g_active&&me&&!me->nosched&&sim::fault(F_CAS_SPURIOUS,1,40)) ok=false;
    if(ok){ *p=v; rmw_hb((void*)p,mo); at_spin((void*)p,true,pc); return true; }
    if(g_active&&me) hb_acquire_atomic((void*)p,fmo); *e=o; at_spin((void*)p,false,pc); return false;
}
extern "C" {
#define AT(N,X) \
X __tsan_atomic##N##_load(const volatile X*p,int mo){return a_load<X>(p,mo,RA);} \
void __tsan_atomic##N##_store(volatile X*p,X v,int mo){a_store<X>(p,v,mo,RA);} \
X __tsan_atomic##N##_exchange(volatile X*p,X v,int mo){return a_rmw<X>(p,mo,RA,[&](X){return v;});} \
X __tsan_atomic##N##_fetch_add(volatile X*p,X v,int mo){return a_rmw<X>(p,mo,RA,[&](X o){return (X)(o+v);});} \
X __tsan_atomic##N##_fetch_sub(volatile X*p,X v,int mo){return a_rmw<X>(p,mo,RA,[&](X o){return (X)(o-v);});} \
X __tsan_atomic##N##_fetch_and(volatile X*p,X v,int mo){return a_rmw<X>(p,mo,RA,[&](X o){return (X)(o&v);});} \
X __tsan_atomic##N##_fetch_or(volatile X*p,X v,int mo){return a_rmw<X>(p,mo,RA,[&](X o){return (X)(o|v);});} \
X __tsan_atomic##N##_fetch_xor(volatile X*p,X v,int mo){return a_rmw<X>(p,mo,RA,[&](X o){return (X)(o^v);});} \
X __tsan_atomic##N##_fetch_nand(volatile X*p,X v,int mo){return a_rmw<X>(p,mo,RA,[&](X o){return (X)~(o&v);});} \
int __tsan_atomic##N##_compare_exchange_strong(volatile X*p,X*e,X v,int mo,int f){return a_cas<X>(p,e,v,mo,f,false,RA);} \
int __tsan_atomic##N##_compare_exchange_weak(volatile X*p,X*e,X v,int mo,int f){return a_cas<X>(p,e,v,mo,f,true,RA);} \
X __tsan_atomic##N##_compare_exchange_val(volatile X*p,X e,X v,int mo,int f){a_cas<X>(p,&e,v,mo,f,false,RA);return e;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if(!g_active||!me) return; point(1,nullptr,(uint64_t)RA,false);
    if(mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST){ if(me->has_acq){ vc_join(me->vc,me->acq_pending); me->has_acq=false; } }
    if(is_rel(mo)){ memcpy(me->rel_fence,me->vc,sizeof me->vc); me->has_fence=true; me->vc[me->id]++; }
}
void __tsan_atomic_signal_fence(int){}
}

/*====================================================================== pthread interposition */
typedef int (*create_t)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
typedef int (*join_t)(pthread_t,void**); typedef int(*detach_t)(pthread_t);
static create_t real_create; static join_t real_join; static detach_t real_detach;
static void resolve()
{
    if(!real_create) real_create=(create_t)dlsym(RTLD_NEXT,"pthread_create");
    if(!real_join) real_join=(join_t)dlsym(RTLD_NEXT,"pthread_join");
    if(!real_detach) real_detach=(detach_t)dlsym(RTLD_NEXT,"pthread_detach");
}
int sim_real_pthread_join(pthread_t t,void**r){ return real_join(t,r); }
static Thr *thr_of(pthread_t p){ for(int i=0;i<tmax;i++) if(T[i].st!=T_FREE&&T[i].pt==p) return &T[i]; return nullptr; }

static void reap(Thr*self) // let the parked real thread of an ended fiber run its TLS destructors and go
{
    Thr*x=self->join_first; self->join_first=nullptr;
    __atomic_store_n(&x->go,1,__ATOMIC_RELEASE); fwake(&x->go); real_join(x->pt,nullptr); x->realjoined=true; if(x->joined||x->detached) x->st=T_FREE;
}
extern "C" void sim_fiber_main(Thr*t)
{
    me=t; if(t->join_first) reap(t);
    t->ret=t->fn(t->arg);
    t->finished=true; hb_release(t);
    wake_addr(t,3,NT);
    if(t->id==0) finish(RUN_OK);
    t->st=T_EXITED; step_++; tick_time(); hmix(hash_,0xE0000|t->id);
    int k=decide(2,0); Thr&n=T[k]; n.join_first=t; cur=&n; n.run_len=0; quiet_run_=0;
    me=nullptr; sh->switches++;
    sim_swap(&t->sp,n.sp,(uint64_t)n.pt);
    __builtin_trap();
}
static void *tramp(void*p)
{
    Thr*t=(Thr*)p; __atomic_store_n(&t->parked,1,__ATOMIC_RELEASE); fwake(&t->parked);
    while(__atomic_load_n(&t->go,__ATOMIC_ACQUIRE)==0) fwait(&t->go,0);
    me=nullptr; return nullptr;
}
static Thr *new_thr(void*(*fn)(void*),void*arg)
{
    int i; for(i=0;i<NT;i++) if(T[i].st==T_FREE) break; if(i==NT) return nullptr;
    if(i>=tmax) tmax=i+1;
    Thr*t=&T[i]; uint32_t clk=t->vc[i]; memset(t,0,sizeof *t); t->id=i; t->fn=fn; t->arg=arg; t->st=T_RUN; t->deadline=~0ull; t->serial=tserial++;
    if(me){ memcpy(t->vc,me->vc,sizeof t->vc); me->vc[me->id]++; t->proc=me->proc; } t->vc[i]=clk+1; 
    t->prio=spec.replay?0:(int)r_sched.below(1000); sh->nthreads_total=(uint32_t)tserial; int n=live_threads(); if((uint32_t)n>sh->nthreads_max) sh->nthreads_max=n;
    return t;
}
static bool spawn(Thr*t)
{
    uintptr_t base=STACK_BASE+(uintptr_t)t->id*SLOT;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a,(void*)(base+GUARD+STK+GUARD),RSTK);
    int r=real_create(&t->pt,&a,tramp,t); pthread_attr_destroy(&a); if(r) return false;
    while(__atomic_load_n(&t->parked,__ATOMIC_ACQUIRE)==0) fwait(&t->parked,0);
    uint64_t*sp=(uint64_t*)(base+GUARD+STK-64);
    *--sp=0; *--sp=0; *--sp=(uint64_t)&sim_fiber_start; // return address; the stack is 16-byte aligned when sim_fiber_start begins
    *--sp=0; *--sp=0; *--sp=(uint64_t)t; *--sp=0; *--sp=0; *--sp=0; // rbp rbx r12 r13 r14 r15
    *--sp=0x037F00001F80ull; t->sp=sp; return true;
}
extern "C" {
int pthread_create(pthread_t*out,const pthread_attr_t*at,void*(*fn)(void*),void*arg)
{
    resolve();
    if(!sim_in()) return real_create(out,at,fn,arg);
    if(sim::fault(F_THREAD_CREATE_FAIL,1,60)) return EAGAIN;
    Thr*t=new_thr(fn,arg); if(!t) return EAGAIN;
    if(at){ int d=0; pthread_attr_getdetachstate(at,&d); t->detached=d==PTHREAD_CREATE_DETACHED; }
    if(!spawn(t)){ t->st=T_FREE; return EAGAIN; }
    *out=t->pt; point(4,nullptr,(uint64_t)RA,false); return 0;
}
int pthread_join(pthread_t p,void**r)
{
    resolve();
    if(!sim_in()) return real_join(p,r);
    point(5,nullptr,(uint64_t)RA,false);
    Thr*t=thr_of(p); if(!t) return ESRCH; if(t->joined||t->detached) return EINVAL;
    while(!t->finished) block(3,t,~0ull,(uint64_t)RA);
    hb_acquire(t); if(r) *r=t->ret; t->joined=true; if(t->realjoined) t->st=T_FREE;
    return 0;
}
int pthread_detach(pthread_t p)
{
    resolve(); if(!sim_in()) return real_detach(p);
    Thr*t=thr_of(p); if(!t) return ESRCH; t->detached=true; if(t->realjoined) t->st=T_FREE; return 0;
}
void abort(void) noexcept { if(sh){ g_active=false; sh->sig=SIGABRT; snprintf(sh->signature,sizeof sh->signature,"crash SIGABRT"); snprintf(sh->message,sizeof sh->message,"abort() or an uncaught exception in thread %d",me?me->id:-1); take_stack(); finish(RUN_VIOLATION); } raw6(SYS_exit_group,134,0,0,0,0,0); __builtin_unreachable(); }
void __assert_fail(const char*e,const char*f,unsigned l,const char*) noexcept { if(sh&&g_active) sim::violate("*","assertion failed","assertion %s failed at %s:%u",e,f,l); fprintf(stderr,"assert %s %s:%u\n",e,f,l); abort(); }
int pthread_setname_np(pthread_t p,const char*n){ if(sim_in()){ Thr*t=thr_of(p); if(t) snprintf(t->name,sizeof t->name,"%s",n);} return 0; }
int pthread_setschedparam(pthread_t,int,const struct sched_param*) noexcept { return 0; }
int pthread_setaffinity_np(pthread_t,size_t,const cpu_set_t*) noexcept { return 0; }

/*---------------- mutex */
struct GM { int lock; unsigned count; int owner; unsigned nusers; int kind; };
static int m_self(){ return me?me->id+1:10000; }
int pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a) noexcept { memset(m,0,sizeof *m); GM*g=(GM*)m; int t=0; if(a) pthread_mutexattr_gettype(a,&t); g->kind=t; return 0; }
int pthread_mutex_destroy(pthread_mutex_t*m) noexcept { if(sim_in()&&((GM*)m)->lock) sim::violate("*","destroy of locked mutex","mutex %p destroyed while locked",(void*)m); return 0; }
static int m_lock(GM*g,bool tr,uint64_t dl,void*pc)
{
    if(!sim_in()){ if(g->lock&&(g->kind&3)==PTHREAD_MUTEX_RECURSIVE&&g->owner==m_self()){g->count++;return 0;} 
        if(g->lock&&g_active){ return tr?EBUSY:EDEADLK; }
        while(__atomic_exchange_n(&g->lock,1,__ATOMIC_ACQUIRE)){ if(tr) return EBUSY; raw6(SYS_sched_yield,0,0,0,0,0,0); } g->owner=m_self(); g->count=1; return 0; }
    uintptr_t off=(uintptr_t)g-HEAP_BASE; if(off<HEAP_SIZE&&!heap_ok(off,40)) heap_bad((uintptr_t)g,40,1,(uint64_t)pc);
    point(6,g,(uint64_t)pc,false); sh->syncops++;
    if(g->lock&&g->owner==m_self()&&(g->kind&3)==PTHREAD_MUTEX_RECURSIVE){ g->count++; return 0; }
    while(g->lock){ if(tr) return EBUSY; if(g->owner==m_self()&&(g->kind&3)==PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; if(block(1,g,dl,(uint64_t)pc)==1) { if(!g->lock) break; return ETIMEDOUT; } }
    g->lock=1; g->owner=m_self(); g->count=1; hb_acquire(g); return 0;
}
static int m_unlock(GM*g,void*pc,bool pt=true)
{
    if(!sim_in()){ if(--g->count==0||(g->kind&3)!=PTHREAD_MUTEX_RECURSIVE){ g->owner=0; g->count=0; __atomic_store_n(&g->lock,0,__ATOMIC_RELEASE);} return 0; }
    uintptr_t off=(uintptr_t)g-HEAP_BASE; if(off<HEAP_SIZE&&!heap_ok(off,40)) heap_bad((uintptr_t)g,40,1,(uint64_t)pc);
    if((g->kind&3)==PTHREAD_MUTEX_RECURSIVE&&g->count>1){ g->count--; return 0; }
    if(!g->lock||g->owner!=m_self()) sim::violate("*","bad mutex unlock","mutex %p unlocked by thread %d which does not hold it",(void*)g,me->id);
    hb_release(g); g->lock=0; g->owner=0; g->count=0; wake_addr(g,1,NT);
    if(pt) point(7,g,(uint64_t)pc,false); return 0;
}
int pthread_mutex_lock(pthread_mutex_t*m) noexcept { return m_lock((GM*)m,false,~0ull,RA); }
int pthread_mutex_trylock(pthread_mutex_t*m) noexcept { return m_lock((GM*)m,true,~0ull,RA); }
int pthread_mutex_unlock(pthread_mutex_t*m) noexcept { return m_unlock((GM*)m,RA); }
static uint64_t to_virt(int clk,const struct timespec*ts){ int64_t n=(int64_t)ts->tv_sec*1000000000ll+ts->tv_nsec; if(clk==CLOCK_REALTIME) n-=real_off; return n<0?0:(uint64_t)n; }
int pthread_mutex_timedlock(pthread_mutex_t*m,const struct timespec*ts) noexcept { return m_lock((GM*)m,false,to_virt(CLOCK_REALTIME,ts),RA); }
int pthread_mutex_clocklock(pthread_mutex_t*m,clockid_t c,const struct timespec*ts) noexcept { return m_lock((GM*)m,false,to_virt(c,ts),RA); }

/*---------------- condition variables */
struct GC { int clk; int magic; };
int pthread_cond_init(pthread_cond_t*c,const pthread_condattr_t*a) noexcept { memset(c,0,sizeof *c); clockid_t k=CLOCK_REALTIME; if(a) pthread_condattr_getclock(a,&k); ((GC*)c)->clk=k; return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int c_wait(pthread_cond_t*c,GM*g,uint64_t dl,void*pc)
{
    if(!sim_in()) return 0; // spurious
    point(8,c,(uint64_t)pc,false);
    unsigned cnt=g->count; g->count=1; m_unlock(g,pc,false);
    uint64_t d2=dl; bool spur=false;
    if(dl!=~0ull&&sim::fault(F_LATE_TIMER,1,20)) { d2=dl+1+sim::fault_value(F_LATE_TIMER,20000000); dl=d2; }
    if(sim::fault(F_SPURIOUS_WAKE,1,20)){ uint64_t x=vtime+1+sim::fault_value(F_SPURIOUS_WAKE,1500000); if(x<d2){ d2=x; spur=true; } }
    int r=block(2,c,d2,(uint64_t)pc);
    while(g->lock) block(1,g,~0ull,(uint64_t)pc);
    g->lock=1; g->owner=m_self(); g->count=cnt; hb_acquire(g);
    return (r==1&&!spur)?ETIMEDOUT:0;
}
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ return c_wait(c,(GM*)m,~0ull,RA); }
int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*ts){ return c_wait(c,(GM*)m,to_virt(((GC*)c)->clk,ts),RA); }
int pthread_cond_clockwait(pthread_cond_t*c,pthread_mutex_t*m,clockid_t k,const struct timespec*ts){ return c_wait(c,(GM*)m,to_virt(k,ts),RA); }
int pthread_cond_signal(pthread_cond_t*c) noexcept { if(sim_in()){ uintptr_t off=(uintptr_t)c-HEAP_BASE; if(off<HEAP_SIZE&&!heap_ok(off,48)) heap_bad((uintptr_t)c,48,1,(uint64_t)RA); wake_addr(c,2,1); point(9,c,(uint64_t)RA,false);} return 0; }
int pthread_cond_broadcast(pthread_cond_t*c) noexcept { if(sim_in()){ uintptr_t off=(uintptr_t)c-HEAP_BASE; if(off<HEAP_SIZE&&!heap_ok(off,48)) heap_bad((uintptr_t)c,48,1,(uint64_t)RA); wake_addr(c,2,NT); point(9,c,(uint64_t)RA,false);} return 0; }

/*---------------- rwlock */
struct GR { int readers; int writer; };
int pthread_rwlock_init(pthread_rwlock_t*r,const pthread_rwlockattr_t*) noexcept { memset(r,0,sizeof *r); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
static int rw_lock(GR*g,bool w,bool tr,void*pc)
{
    if(!sim_in()){ if(w) g->writer=1; else g->readers++; return 0; }
    point(6,g,(uint64_t)pc,false);
    while(g->writer||(w&&g->readers)){ if(tr) return EBUSY; block(8,g,~0ull,(uint64_t)pc); }
    if(w) g->writer=1; else g->readers++; hb_acquire(g); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t*r) noexcept { return rw_lock((GR*)r,false,false,RA); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t*r) noexcept { return rw_lock((GR*)r,false,true,RA); }
int pthread_rwlock_wrlock(pthread_rwlock_t*r) noexcept { return rw_lock((GR*)r,true,false,RA); }
int pthread_rwlock_trywrlock(pthread_rwlock_t*r) noexcept { return rw_lock((GR*)r,true,true,RA); }
int pthread_rwlock_unlock(pthread_rwlock_t*r) noexcept { GR*g=(GR*)r; if(g->writer) g->writer=0; else g->readers--; if(sim_in()){ hb_release(g); wake_addr(g,8,NT); point(7,g,(uint64_t)RA,false);} return 0; }

/*---------------- once, static guards */
int pthread_once(pthread_once_t*o,void(*fn)(void))
{
    volatile int*p=(volatile int*)o;
    if(!sim_in()){ if(*p!=2){ *p=1; fn(); *p=2; } return 0; }
    point(6,o,(uint64_t)RA,false);
    while(*p==1) block(6,o,~0ull,(uint64_t)RA);
    if(*p==2){ hb_acquire(o); return 0; }
    *p=1;
    struct G{ volatile int*p; bool ok; ~G(){ *p=ok?2:0; if(sim_in()){ hb_release((void*)p); wake_addr((void*)p,6,NT);} } } g{p,false};
    fn(); g.ok=true; return 0;
}
int __cxa_guard_acquire(uint64_t*g)
{
    volatile uint8_t*b=(volatile uint8_t*)g;
    if(!sim_in()){ if(b[0]) return 0; b[1]=1; return 1; }
    point(6,g,(uint64_t)RA,false);
    while(!b[0]&&b[1]) block(7,g,~0ull,(uint64_t)RA);
    if(b[0]){ hb_acquire(g); return 0; }
    b[1]=1; return 1;
}
void __cxa_guard_release(uint64_t*g) noexcept { volatile uint8_t*b=(volatile uint8_t*)g; b[1]=0; b[0]=1; if(sim_in()){ hb_release(g); wake_addr(g,7,NT);} }
void __cxa_guard_abort(uint64_t*g) noexcept { volatile uint8_t*b=(volatile uint8_t*)g; b[1]=0; if(sim_in()){ wake_addr(g,7,NT);} }

/*---------------- futex via syscall() (std::future and friends) */
long syscall(long n,...) noexcept
{
    va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
    if(n==SYS_futex&&sim_in()){
        int op=(int)b&~(FUTEX_PRIVATE_FLAG|FUTEX_CLOCK_REALTIME); volatile int*p=(volatile int*)a;
        if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){
            point(10,(void*)p,(uint64_t)RA,false);
            if(*p!=(int)c){ errno=EAGAIN; return -1; }
            uint64_t dl=~0ull; const struct timespec*ts=(const struct timespec*)d;
            if(ts){ if(op==FUTEX_WAIT) dl=vtime+(uint64_t)ts->tv_sec*1000000000ull+ts->tv_nsec; else dl=to_virt((b&FUTEX_CLOCK_REALTIME)?CLOCK_REALTIME:CLOCK_MONOTONIC,ts); }
            uint64_t d2=dl; bool spur=false; if(sim::fault(F_SPURIOUS_WAKE,1,30)){ uint64_t x=vtime+1+sim::fault_value(F_SPURIOUS_WAKE,1500000); if(x<d2){d2=x;spur=true;} }
            int r=block(5,(void*)p,d2,(uint64_t)RA); hb_acquire((void*)p);
            if(r==1&&!spur){ errno=ETIMEDOUT; return -1; } return 0;
        }
        if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET){ int k=wake_addr((void*)p,5,(int)c); point(10,(void*)p,(uint64_t)RA,false); return k; }
    }
    if(n==SYS_gettid&&sim_in()) return 4242+me->id;
    long r=raw6(n,a,b,c,d,e,f); if(r<0&&r>-4096){ errno=(int)-r; return -1; } return r;
}
pid_t gettid(void) noexcept { if(sim_in()) return 4242+me->id; return (pid_t)raw6(SYS_gettid,0,0,0,0,0,0); }
pid_t getpid(void) noexcept { if(g_active){ const int p=me?me->proc:0; return p<32&&kern::pid_of[p]?kern::pid_of[p]:kern::pid+p*11; } return (pid_t)raw6(SYS_getpid,0,0,0,0,0,0); }

/*---------------- clocks and sleeping */
int clock_gettime(clockid_t c,struct timespec*ts) noexcept
{
    if(!g_active) { return (int)raw6(SYS_clock_gettime,c,(long)ts,0,0,0,0); }
    if(me&&!me->nosched&&sim::fault(F_CLOCK_JUMP,1,200)){ int64_t j=(int64_t)sim::fault_value(F_CLOCK_JUMP,7200ull*1000000000ull)-3600ll*1000000000ll; real_off+=j; }
    vtime+=tick; uint64_t v=vtime; if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE) v+=real_off;
    ts->tv_sec=v/1000000000ull; ts->tv_nsec=v%1000000000ull; if(vtime>=next_deadline) wake_due(); return 0;
}
int gettimeofday(struct timeval*tv,void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; }
time_t time(time_t*t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); if(t) *t=ts.tv_sec; return ts.tv_sec; }
static void do_sleep(uint64_t ns,void*pc){ if(sim::fault(F_LATE_TIMER,1,20)) ns+=sim::fault_value(F_LATE_TIMER,20000000); block(4,nullptr,vtime+ns,(uint64_t)pc); }
int nanosleep(const struct timespec*a,struct timespec*r){ if(!sim_in()) return (int)raw6(SYS_nanosleep,(long)a,(long)r,0,0,0,0); if(a->tv_sec<0||a->tv_nsec<0||a->tv_nsec>=1000000000){ errno=EINVAL; return -1; } do_sleep((uint64_t)a->tv_sec*1000000000ull+a->tv_nsec,RA); return 0; }
int clock_nanosleep(clockid_t c,int fl,const struct timespec*a,struct timespec*r){ if(!sim_in()) return -(int)raw6(SYS_clock_nanosleep,c,fl,(long)a,(long)r,0,0); 
    if(a->tv_nsec<0||a->tv_nsec>=1000000000) return EINVAL;
    if(fl&TIMER_ABSTIME){ uint64_t d=to_virt(c,a); do_sleep(d>vtime?d-vtime:0,RA);} else do_sleep((uint64_t)a->tv_sec*1000000000ull+a->tv_nsec,RA); return 0; }
int usleep(useconds_t u){ if(!sim_in()){ struct timespec t={(time_t)(u/1000000),(long)(u%1000000)*1000}; return nanosleep(&t,nullptr);} do_sleep((uint64_t)u*1000,RA); return 0; }
int sched_yield(void) noexcept { if(!sim_in()) return (int)raw6(SYS_sched_yield,0,0,0,0,0,0); point(3,nullptr,(uint64_t)RA,true); return 0; }
ssize_t getrandom(void*b,size_t n,unsigned){ uint8_t*p=(uint8_t*)b; static Rng r{77}; for(size_t i=0;i<n;i++) p[i]=(uint8_t)(g_active?r_work.next():r.next()); return n; }
int getentropy(void*b,size_t n) noexcept { getrandom(b,n,0); return 0; }
}

/*====================================================================== running one simulation */
static void *world_main(void*p){ sim::set_free_races("*"); ((World*)p)->fn(); return nullptr; }
static void *rt_alloc(size_t n){ void*p=(void*)raw6(SYS_mmap,0,(long)n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); return p; }
void sim_prepare(void) // once, in the parent
{
    resolve(); mapfix(STACK_BASE,(size_t)NT*SLOT); sim_have_fsgs=(getauxval(AT_HWCAP2)&2)!=0;
    for(int i=0;i<NT;i++){ mprotect((void*)(STACK_BASE+(uintptr_t)i*SLOT),GUARD,PROT_NONE); mprotect((void*)(STACK_BASE+(uintptr_t)i*SLOT+GUARD+STK),GUARD,PROT_NONE); }
    sv_pool=(SyncVar*)rt_alloc(sizeof(SyncVar)*SV_N); sv_hash=(uint32_t*)rt_alloc(sizeof(uint32_t)*SVH); hbv=(HbVar*)rt_alloc(sizeof(HbVar)*HB_N);
}
void sim::run_child(const RunSpec&s,Shared*shared)
{
    specp=&s; sh=shared; g_seed=s.seed;
    World*w=World::head; while(w&&strcmp(spec.world,w->name)) w=w->next;
    if(!w){ fprintf(stderr,"unknown world %s\n",s.world); sh->outcome=RUN_ERROR; _exit(3); }
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_signal; sa.sa_flags=SA_SIGINFO|SA_NODEFER; 
    int sg[]={SIGSEGV,SIGABRT,SIGBUS,SIGFPE,SIGILL}; for(int x:sg) sigaction(x,&sa,nullptr);
    signal(SIGPIPE,SIG_IGN);
    r_sched.s=mix(g_seed,1); r_work.s=mix(g_seed,2); r_fault.s=mix(g_seed,3); r_plain.s=mix(g_seed,4);
    // swarm: each run draws its own scheduling policy, preemption granularity, time scale and fault mix
    Rng c{mix(g_seed,5)};
    uint64_t k=c.below(100); policy=k<45?P_RANDOM:k<75?P_PCT:k<85?P_RR:P_STALL;
    static const int dens[]={2,3,5,10,20,50,100,300}; pol_den=dens[c.below(8)];
    static const int pm[]={0,0,15,60,250,1000,5000}; plain_mean=pm[c.below(7)];
    static const int tk[]={10,50,200,1000,5000}; tick=tk[c.below(5)];
    pct_n=1+(int)c.below(5); uint64_t span=1000ull<<c.below(9); for(int i=0;i<pct_n;i++) pct_points[i]=1+c.below(span);
    rr_q=1+c.below(60); fair_q=17; stall_victim=(int)c.below(8); stall_period=2000+c.below(60000); stall_len=stall_period/2+c.below(stall_period/2);
    for(int i=0;i<F__COUNT;i++){ static const int sc[]={0,0,1,2,4,8,16,32}; fkind_scale[i]=sc[c.below(8)]; }
    conflict_mode=c.below(4)==0; { static const uint32_t cd[]={2,8,40}; conflict_den=cd[c.below(3)]; }
    sh->policy=policy; real_off=1700000000ll*1000000000ll; vtime=1000000000ull; plain_left=plain_mean?1+(long)plain_mean:20000;
    fkind_enabled[F_SPURIOUS_WAKE]=fkind_enabled[F_CAS_SPURIOUS]=fkind_enabled[F_LATE_TIMER]=true;
    Thr*t=new_thr(world_main,w); snprintf(t->name,sizeof t->name,"main"); 
    if(!spawn(t)){ sh->outcome=RUN_ERROR; _exit(3); }
    cur=t; g_active=true;
    static void*main_sp; sim_swap(&main_sp,t->sp,(uint64_t)t->pt); __builtin_trap();
}

/*====================================================================== bulk memory functions called from instrumented code */
extern "C" {
static inline void bulk(const void*p,size_t n,int w,void*pc){ if(!g_active||!me||!n) return; uintptr_t off=(uintptr_t)p-HEAP_BASE; if(off<HEAP_SIZE){ if(!heap_ok(off,n)) heap_bad((uintptr_t)p,(unsigned)n,w,(uint64_t)pc); if(race_props) race_check(off,(unsigned)n,w); } }
void *__wrap_memcpy(void*d,const void*s,size_t n){ bulk(s,n,0,RA); bulk(d,n,1,RA); return __real_memcpy(d,s,n); }
void *__wrap_memmove(void*d,const void*s,size_t n){ bulk(s,n,0,RA); bulk(d,n,1,RA); return __real_memmove(d,s,n); }
void *__wrap_memset(void*d,int c,size_t n){ bulk(d,n,1,RA); return __real_memset(d,c,n); }
}

