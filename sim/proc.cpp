// Simulated child processes, pipes and dynamic loader.  See proc.hpp.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "simrt_int.h"
#include "proc.hpp"
#include <Poco/Process.h>
#include <Poco/Pipe.h>
#include <Poco/Exception.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <signal.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

using namespace sim;
static bool pon=false; static proc::Hooks H;
static inline bool on(){ return pon&&sim_in(); }
void proc::enable(const Hooks&h){ H=h; pon=true; }
void proc::disable(void){ pon=false; }

//------------------------------------------------------------------ pipes
enum { NP=128, PBASE=300000, PCAP=4096 };
struct SPipe { bool used; int r,w; unsigned char buf[PCAP]; int head,count; int reading; }; // r, w: open descriptors of that end
static SPipe pipes[NP]; static char pkey;
static void changed(){ sim_release(&pkey); sim_wake_io(&pkey); }
size_t proc::open_pipes(void){ size_t n=0; for(auto&p:pipes) if(p.used) n+=(p.r>0)+(p.w>0); return n; }
static SPipe*PP(int fd,bool*wr){ if(fd<PBASE||fd>=PBASE+2*NP) return nullptr; SPipe*p=&pipes[(fd-PBASE)/2]; *wr=(fd-PBASE)&1; return p->used&&(*wr?p->w:p->r)>0?p:nullptr; }
int sim_proc_close(int fd)
{
    bool wr; if(fd<PBASE||fd>=PBASE+2*NP) return -2; SPipe*p=PP(fd,&wr); if(!p){ if(on()) sim::violate("*","double close","pipe descriptor %d closed while not open",fd); errno=EBADF; return -1; }
    sim_point(40,&pkey); if(!wr&&p->reading&&p->r==1) sim::violate("*","descriptor closed in use","a pipe is closed while another thread is reading from it");
    if(wr) p->w--; else p->r--; if(!p->r&&!p->w) p->used=false; changed(); return 0;
}
void proc::pipe_close(int fd){ bool wr; SPipe*p=PP(fd,&wr); if(!p) return; sim_point(40,&pkey); if(wr) p->w--; else p->r--; if(!p->r&&!p->w) p->used=false; changed(); }
long sim_proc_read(int fd,void*b,size_t n)
{
    if(fd<PBASE||fd>=PBASE+2*NP) return -2; bool wr; sim_point(41,&pkey); SPipe*p=PP(fd,&wr); if(!p||wr){ errno=EBADF; return -1; }
    for(;;){
        if(p->count){ size_t k=(size_t)p->count<n?(size_t)p->count:n; if(k>1&&sim::fault(F_STREAM_FRAGMENT,1,4)) k=1+sim::fault_value(F_STREAM_FRAGMENT,k-1); for(size_t i=0;i<k;i++) ((unsigned char*)b)[i]=p->buf[(p->head+i)%PCAP]; p->head=(p->head+(int)k)%PCAP; p->count-=(int)k; sim_acquire(&pkey); changed(); return (long)k; }
        if(!p->w) return 0;
        if(sim::fault(F_EINTR,1,20)){ errno=EINTR; return -1; }
        p->reading++; sim_block_io(&pkey,~0ull); sim_acquire(&pkey); p->reading--;
    }
}
long sim_proc_write(int fd,const void*b,size_t n)
{
    if(fd<PBASE||fd>=PBASE+2*NP) return -2; bool wr; sim_point(42,&pkey); SPipe*p=PP(fd,&wr); if(!p||!wr){ errno=EBADF; return -1; }
    for(;;){ if(!p->r){ errno=EPIPE; return -1; } if(p->count<PCAP){ size_t k=PCAP-p->count<n?PCAP-p->count:n; for(size_t i=0;i<k;i++) p->buf[(p->head+p->count++)%PCAP]=((const unsigned char*)b)[i]; changed(); return (long)k; } sim_block_io(&pkey,~0ull); sim_acquire(&pkey); }
}
long proc::pipe_write(int fd,const void*b,size_t n){ size_t at=0; while(at<n){ long r=sim_proc_write(fd,(const char*)b+at,n-at); if(r<0) return -1; at+=(size_t)r; } return (long)n; }

//------------------------------------------------------------------ processes
enum { NC=256, PIDBASE=500000 };
static bool child[NC]; static int nchild=0;
size_t proc::unreaped(void){ size_t n=0; for(int i=0;i<nchild;i++) n+=child[i]; return n; }
namespace Poco {
ProcessHandle Process::launch(const std::string&cmd,const Args&args,Pipe*in,Pipe*out,Pipe*err,const Env&env)
{
    if(!on()) throw SystemException("no processes here");
    (void)env; sim_point(43,&pkey);
    if(nchild==NC||sim::fault(F_LAUNCH_FAIL,1,10)) throw SystemException("Cannot fork process for",cmd);
    int o=-1,e=-1; bool wr; if(out){ o=out->writeHandle(); if(SPipe*p=PP(o,&wr)) p->w++; } if(err){ e=err->writeHandle(); if(SPipe*p=PP(e,&wr)) p->w++; }
    const int pid=PIDBASE+nchild; child[nchild++]=true;
    const int r=H.launch(pid,cmd.c_str(),args,o,e);
    if(r){ child[pid-PIDBASE]=false; proc::pipe_close(o); proc::pipe_close(e); throw SystemException("Cannot fork process for",cmd); }
    if(in) in->close(Pipe::CLOSE_READ); if(out) out->close(Pipe::CLOSE_WRITE); if(err) err->close(Pipe::CLOSE_WRITE);
    return ProcessHandle(new ProcessHandleImpl(pid));
}
}
typedef void*(*Fdlopen)(const char*,int); typedef int(*Fdlclose)(void*); typedef char*(*Fdlerror)(void);
template<class F> static F real(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
enum { NL=64 };
struct Lib { char path[128]; int refs; }; static Lib libs[NL]; static int nlibs=0; static int ldOwner=0,ldDepth=0; static char ldkey; static __thread const char*lderr=nullptr;
static void ld_lock(){ const int me=sim::self()+1; while(ldDepth&&ldOwner!=me) sim_block_io(&ldkey,~0ull); ldOwner=me; ldDepth++; sim_acquire(&ldkey); }
static void ld_unlock(){ sim_release(&ldkey); if(--ldDepth==0){ ldOwner=0; sim_wake_io(&ldkey); } }
int proc::loaded(const char*p){ for(int i=0;i<nlibs;i++) if(!strcmp(libs[i].path,p)) return libs[i].refs; return 0; }
extern "C" {
void *dlopen(const char*p,int fl)
{
    if(!on()||!p||strncmp(p,"/simfs/",7)) return real<Fdlopen>("dlopen")(p,fl);
    sim_point(44,&ldkey); ld_lock();
    struct U{ ~U(){ ld_unlock(); } } u; int i=0; for(;i<nlibs;i++) if(!strcmp(libs[i].path,p)) break;
    if(i<nlibs&&libs[i].refs){ libs[i].refs++; return &libs[i]; }
    if(!kern::exists(p)||sim::fault(F_DLOPEN_FAIL,1,8)){ lderr="cannot open shared object file"; return nullptr; }
    if(i==nlibs){ if(nlibs==NL){ lderr="too many"; return nullptr; } snprintf(libs[nlibs++].path,128,"%s",p); }
    libs[i].refs=1; if(!H.load(p)){ libs[i].refs=0; lderr="undefined symbol"; return nullptr; }
    return &libs[i];
}
int dlclose(void*h) noexcept
{
    if((char*)h<(char*)libs||(char*)h>=(char*)(libs+NL)) return real<Fdlclose>("dlclose")(h);
    sim_point(45,&ldkey); ld_lock(); Lib&l=*(Lib*)h; if(l.refs<=0){ ld_unlock(); sim::violate("*","library closed too often","%s is closed while it is not loaded",l.path); }
    if(--l.refs==0) H.unload(l.path);
    ld_unlock(); return 0;
}
char *dlerror(void) noexcept { if(lderr){ char*e=(char*)lderr; lderr=nullptr; return e; } return real<Fdlerror>("dlerror")(); }
int pipe(int fd[2]) noexcept
{
    if(!on()){ long r=sim_raw_syscall(SYS_pipe,(long)fd); if(r<0){ errno=(int)-r; return -1; } return 0; }
    sim_point(46,&pkey); for(int i=0;i<NP;i++) if(!pipes[i].used){ SPipe&p=pipes[i]; p.used=true; p.r=p.w=1; p.head=p.count=p.reading=0; fd[0]=PBASE+2*i; fd[1]=PBASE+2*i+1; return 0; } errno=EMFILE; return -1;
}
pid_t waitpid(pid_t pid,int*st,int opt)
{
    if(!on()||pid<PIDBASE){ long r=sim_raw_syscall(SYS_wait4,pid,(long)st,opt,0); if(r<0){ errno=(int)-r; return -1; } return (pid_t)r; }
    sim_point(47,&pkey); if(pid>=PIDBASE+nchild||!child[pid-PIDBASE]){ errno=ECHILD; return -1; }
    if(sim::fault(F_EINTR,1,8)){ errno=EINTR; return -1; }
    int s=H.wait(pid); child[pid-PIDBASE]=false; if(st) *st=s; return pid;
}
int kill(pid_t pid,int sig) noexcept
{
    if(pid<PIDBASE||!sim_in()) return (int)sim_raw_syscall(SYS_kill,pid,sig);
    sim_point(48,&pkey); if(pid>=PIDBASE+nchild||!child[pid-PIDBASE]){ errno=ESRCH; return -1; } H.signal(pid,sig); return 0;
}
}
