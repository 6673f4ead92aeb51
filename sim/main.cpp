// Driver: forks one process per simulated run.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "simrt_int.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sched.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <signal.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
using namespace sim;

static double wall(){ struct timespec t; sim_raw_syscall(SYS_clock_gettime,CLOCK_MONOTONIC,(long)&t); return t.tv_sec+t.tv_nsec*1e-9; }
static std::string esc(const char*s){ std::string o; for(;*s;s++){ if(*s=='"'||*s=='\\'){o+='\\';o+=*s;} else if((unsigned char)*s<32) o+=' '; else o+=*s; } return o; }
static void reset(Shared*s){ memset(s,0,offsetof(Shared,cov)); }
static unsigned run_alarm=120;


// Every run is forked from a pristine zygote process that never allocates, so a run's memory image does not depend on
// what the driver did before.  Zygotes are created before anything else happens in main().
struct Slot { RunSpec spec; Shared sh; };
static Slot *slots; static int zcpu[8],ncpu=0; static int zin[16], zout[16], nz=0;
static void zygote(int w,int rd,int wr)
{
    for(;;){
        char c; if(read(rd,&c,1)!=1) _exit(0);
        pid_t p=fork();
        if(p==0){ close(rd); close(wr); alarm(run_alarm); run_child(slots[w].spec,&slots[w].sh); }
        int st=0; while(waitpid(p,&st,0)<0){} 
        if(write(wr,&st,sizeof st)!=sizeof st) _exit(0);
    }
}
static void make_zygotes(int n)
{
    slots=(Slot*)mmap(nullptr,sizeof(Slot)*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    for(int w=0;w<n;w++){
        int a[2],b[2]; if(pipe(a)||pipe(b)) _exit(97);
        pid_t p=fork();
        if(p==0){ if(ncpu>=1){ cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(zcpu[w%ncpu],&cs); sim_raw_syscall(SYS_sched_setaffinity,0,sizeof cs,(long)&cs); } close(a[1]); close(b[0]); for(int i=0;i<w;i++){ close(zin[i]); close(zout[i]); } zygote(w,a[0],b[1]); }
        close(a[0]); close(b[1]); zin[w]=a[1]; zout[w]=b[0]; nz++;
    }
}
static int run_one(int w)
{
    Shared*s=&slots[w].sh; reset(s);
    char c=1; int st=0; if(write(zin[w],&c,1)!=1||read(zout[w],&st,sizeof st)!=sizeof st){ s->outcome=RUN_ERROR; snprintf(s->signature,sizeof s->signature,"zygote lost"); return 1; }
    if(s->outcome==RUN_NONE){
        if(WIFSIGNALED(st)){ s->sig=WTERMSIG(st); snprintf(s->signature,sizeof s->signature,WTERMSIG(st)==SIGALRM?"wall timeout":"killed by signal"); snprintf(s->message,sizeof s->message,"run process ended by signal %d",WTERMSIG(st)); s->outcome=WTERMSIG(st)==SIGALRM||WTERMSIG(st)==SIGKILL?RUN_ERROR:RUN_VIOLATION; }
        else { snprintf(s->signature,sizeof s->signature,"process exited"); snprintf(s->message,sizeof s->message,"run process exited early with status %d",WEXITSTATUS(st)); s->outcome=RUN_VIOLATION; }
        return 1;
    }
    return 0;
}
static void print_result(FILE*f,const RunSpec&sp,const Shared*s)
{
    fprintf(f,"{\"seed\":%llu,\"outcome\":%d,\"signature\":\"%s\",\"message\":\"%s\",\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,\"vtime\":%llu,\"hash\":\"%016llx\",\"swhash\":\"%016llx\",\"threads\":%u,\"policy\":%u,\"nchoices\":%u,\"nfaults\":%u,\"fair\":%u,\"thread\":%d,\"stack\":[",
        (unsigned long long)sp.seed,s->outcome,esc(s->signature).c_str(),esc(s->message).c_str(),(unsigned long long)s->steps,(unsigned long long)s->switches,(unsigned long long)s->preempts,(unsigned long long)s->vtime,(unsigned long long)s->hash,(unsigned long long)s->swhash,s->nthreads_max,s->policy,s->nchoices,s->nfaults,s->fair_used,s->vthread);
    for(uint32_t i=0;i<s->nstack;i++) fprintf(f,"%s\"0x%llx\"",i?",":"",(unsigned long long)s->stack[i]);
    fprintf(f,"],\"counters\":{"); for(uint32_t i=0;i<s->ncounters;i++) fprintf(f,"%s\"%s\":%llu",i?",":"",s->counters[i].name,(unsigned long long)s->counters[i].val);
    fprintf(f,"}}\n"); fflush(f);
}
static void write_trace(const char*path,const RunSpec&sp,const Shared*s)
{
    FILE*f=fopen(path,"w"); if(!f) return;
    fprintf(f,"simtrace 1\nworld %s\nproperty %s\nseed %llu\noutcome %d\nsignature %s\nhash %016llx\n",sp.world,sp.property,(unsigned long long)sp.seed,s->outcome,s->signature,(unsigned long long)s->hash);
    for(uint32_t i=0;i<s->nparams;i++) fprintf(f,"p %s %lld\n",s->params[i].name,(long long)s->params[i].val);
    for(uint32_t i=0;i<s->nfaults;i++) fprintf(f,"f %s %u\n",fault_names[s->faults[i].kind],s->faults[i].idx);
    for(uint32_t i=0;i<s->nchoices;i++) fprintf(f,"%c %llu %u\n",s->choices[i].kind?'c':'s',(unsigned long long)s->choices[i].step,s->choices[i].val);
    fclose(f);
}
static bool load_trace(const char*path,RunSpec&sp)
{
    std::ifstream in(path); if(!in) return false; std::string l;
    sp.replay=1; sp.nchoices=sp.nfaults=sp.nparams=0;
    while(std::getline(in,l)){ std::istringstream ss(l); std::string k; ss>>k; std::string n;
        if(k=="world"){ ss>>n; snprintf(sp.world,sizeof sp.world,"%s",n.c_str()); } else if(k=="property"){ ss>>n; snprintf(sp.property,sizeof sp.property,"%s",n.c_str()); } else if(k=="seed") ss>>sp.seed;
        else if(k=="p"){ ParamRec&p=sp.params[sp.nparams++]; memset(&p,0,sizeof p); long long v; ss>>n>>v; snprintf(p.name,sizeof p.name,"%s",n.c_str()); p.val=v; }
        else if(k=="f"){ FaultRec&f=sp.faults[sp.nfaults++]; ss>>n>>f.idx; f.kind=F__COUNT; for(int i=0;i<F__COUNT;i++) if(n==fault_names[i]) f.kind=i; }
        else if(k=="s"||k=="c"){ Choice&c=sp.choices[sp.nchoices++]; unsigned long long st; ss>>st>>c.val; c.step=st; c.kind=k=="c"; } }
    return true;
}
static const char *arg(int c,char**v,const char*n,const char*d){ for(int i=1;i<c-1;i++) if(!strcmp(v[i],n)) return v[i+1]; return d; }
static bool flag(int c,char**v,const char*n){ for(int i=1;i<c;i++) if(!strcmp(v[i],n)) return true; return false; }
static uint64_t smix(uint64_t z){ z+=0x9E3779B97F4A7C15ull; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return (z^(z>>31))>>1; }

struct Ctl { volatile long violations; volatile long stop; volatile long done; };
static void worker(int w,int jobs,const std::string&world,const std::string&prop,uint64_t base,uint64_t n,double limit,int maxviol,const std::string&out,Ctl*ctl,bool twice)
{
    Shared*s=&slots[w].sh; RunSpec&sp=slots[w].spec; double t0=wall(); uint64_t runs=0,steps=0,switches=0,preempts=0,vtime=0,syncops=0,other=0,errors=0,fairs=0,nondet=0; std::set<uint64_t> sw; std::map<std::string,uint64_t> cnt; std::map<std::string,uint64_t> others;
    uint64_t ff[F__COUNT]={0},fa[F__COUNT]={0},pol[8]={0}; unsigned thr=0; uint64_t frun[F__COUNT]={0};
    std::vector<uint8_t> cov(COV_BITS/8,0); FILE*f=fopen((out+"."+std::to_string(w)).c_str(),"w"); uint64_t covhist=0; (void)covhist; std::vector<std::string> samples;
    memset(s->cov,0,sizeof s->cov);
    for(uint64_t i=w;i<n&&!ctl->stop;i+=jobs){
        if(wall()-t0>limit) break;
        snprintf(sp.world,sizeof sp.world,"%s",world.c_str()); snprintf(sp.property,sizeof sp.property,"%s",prop.c_str()); sp.replay=sp.verbose=0; sp.nchoices=sp.nfaults=sp.nparams=0; sp.seed=smix(base*1000003ull+i);
        run_one(w); runs++;
        if(twice){ uint64_t h=s->hash,st=s->steps; int oc=s->outcome; run_one(w); if(h!=s->hash||st!=s->steps||oc!=s->outcome){ nondet++; fprintf(stderr,"NONDET seed %llu: %016llx/%llu vs %016llx/%llu\n",(unsigned long long)sp.seed,(unsigned long long)h,(unsigned long long)st,(unsigned long long)s->hash,(unsigned long long)s->steps);} }
        steps+=s->steps; switches+=s->switches; preempts+=s->preempts; vtime+=s->vtime-1000000000ull; syncops+=s->syncops; fairs+=s->fair_used; sw.insert(s->swhash); if(s->policy<8) pol[s->policy]++;
        if(s->nthreads_max>thr) thr=s->nthreads_max;
        for(int k=0;k<F__COUNT;k++){ ff[k]+=s->fault_fired[k]; fa[k]+=s->fault_asked[k]; frun[k]+=s->fault_fired[k]!=0; }
        for(uint32_t k=0;k<s->ncounters;k++) cnt[s->counters[k].name]+=s->counters[k].val;
        if(samples.size()<2&&s->outcome==RUN_OK&&s->switches>20){ char b[600]; int o=snprintf(b,sizeof b,"seed %llu: %llu steps, %llu context switches (%llu preemptions), %u threads, policy %u, params",(unsigned long long)sp.seed,(unsigned long long)s->steps,(unsigned long long)s->switches,(unsigned long long)s->preempts,s->nthreads_max,s->policy); for(uint32_t k=0;k<s->nparams&&o<420;k++) o+=snprintf(b+o,sizeof b-o," %s=%lld",s->params[k].name,(long long)s->params[k].val); samples.push_back(b); }
        if(s->outcome==RUN_OTHER){ other++; others[s->signature]++; fprintf(f,"{\"type\":\"other\","); fseek(f,0,SEEK_CUR); fprintf(f,"\"seed\":%llu,\"signature\":\"%s\",\"message\":\"%s\"}\n",(unsigned long long)sp.seed,esc(s->signature).c_str(),esc(s->message).c_str()); }
        else if(s->outcome==RUN_ERROR){ errors++; fprintf(f,"{\"type\":\"error\",\"seed\":%llu,\"signature\":\"%s\",\"message\":\"%s\"}\n",(unsigned long long)sp.seed,esc(s->signature).c_str(),esc(s->message).c_str()); fflush(f); }
        else if(s->outcome==RUN_VIOLATION){
            std::string tr=out+"."+std::to_string(sp.seed)+".trace"; write_trace(tr.c_str(),sp,s);
            fprintf(f,"{\"type\":\"violation\",\"trace\":\"%s\",\"r\":",tr.c_str()); print_result(f,sp,s); fseek(f,-1,SEEK_CUR); fprintf(f,"}\n"); fflush(f);
            if(__sync_add_and_fetch(&ctl->violations,1)>=maxviol) ctl->stop=1; }
        __sync_add_and_fetch(&ctl->done,1);
    }
    for(size_t k=0;k<cov.size();k++) cov[k]|=s->cov[k];
    fprintf(f,"{\"type\":\"summary\",\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,\"vtime_ns\":%llu,\"syncops\":%llu,\"other\":%llu,\"errors\":%llu,\"fair_runs\":%llu,\"nondet\":%llu,\"max_threads\":%u,\"wall\":%.3f,",(unsigned long long)runs,(unsigned long long)steps,(unsigned long long)switches,(unsigned long long)preempts,(unsigned long long)vtime,(unsigned long long)syncops,(unsigned long long)other,(unsigned long long)errors,(unsigned long long)fairs,(unsigned long long)nondet,thr,wall()-t0);
    fprintf(f,"\"policy\":[%llu,%llu,%llu,%llu],\"faults\":{",(unsigned long long)pol[0],(unsigned long long)pol[1],(unsigned long long)pol[2],(unsigned long long)pol[3]);
    bool first=true; for(int k=0;k<F__COUNT;k++) if(fa[k]){ fprintf(f,"%s\"%s\":[%llu,%llu,%llu]",first?"":",",fault_names[k],(unsigned long long)ff[k],(unsigned long long)fa[k],(unsigned long long)frun[k]); first=false; }
    fprintf(f,"},\"counters\":{"); first=true; for(auto&p:cnt){ fprintf(f,"%s\"%s\":%llu",first?"":",",p.first.c_str(),(unsigned long long)p.second); first=false; }
    fprintf(f,"},\"others\":{"); first=true; for(auto&p:others){ fprintf(f,"%s\"%s\":%llu",first?"":",",esc(p.first.c_str()).c_str(),(unsigned long long)p.second); first=false; }
    fprintf(f,"},\"samples\":["); first=true; for(auto&p:samples){ fprintf(f,"%s\"%s\"",first?"":",",esc(p.c_str()).c_str()); first=false; }
    fprintf(f,"],\"cov\":\""); for(uint8_t b:cov) fprintf(f,"%02x",b); fprintf(f,"\",\"sw\":["); first=true; for(uint64_t h:sw){ fprintf(f,"%s\"%llx\"",first?"":",",(unsigned long long)h); first=false; }
    fprintf(f,"]}\n"); fclose(f); _exit(0);
}
int main(int argc,char**argv)
{
    if(!getenv("SIM_CHILD")){
        setenv("SIM_CHILD","1",1); setenv("POTHOS_LOG_CHANNEL","null",1); setenv("LC_ALL","C",1); setenv("TZ","UTC",1); unsetenv("POTHOS_ROOT");
        int p=personality(0xffffffff); if(p>=0&&!(p&ADDR_NO_RANDOMIZE)) personality(p|ADDR_NO_RANDOMIZE);
        // a fixed, minimal environment keeps initial stack and heap layout identical everywhere
        const char*env[]={"SIM_CHILD=1","POTHOS_LOG_CHANNEL=null","LC_ALL=C","TZ=UTC","HOME=/nonexistent",nullptr};
        execve("/proc/self/exe",argv,(char**)env); perror("exec"); return 97;
    }
    run_alarm=atoi(arg(argc,argv,"--alarm","120"));
    bool explore=argc>1&&!strcmp(argv[1],"explore"); int jobs=explore?atoi(arg(argc,argv,"--jobs","8")):1; if(jobs>8) jobs=8; if(jobs<1) jobs=1;
    cpu_set_t all; CPU_ZERO(&all); sim_raw_syscall(SYS_sched_getaffinity,0,sizeof all,(long)&all); int cpus[8],nc=0; for(int i=0;i<CPU_SETSIZE&&nc<8;i++) if(CPU_ISSET(i,&all)) cpus[nc++]=i;
    if(jobs>nc) jobs=nc;
    if(explore){ for(int i=0;i<nc;i++) zcpu[i]=cpus[i]; ncpu=nc; } else { const char*c=arg(argc,argv,"--cpu",nullptr); zcpu[0]=c?atoi(c):cpus[0]; ncpu=1; }
    sim_prepare();
    make_zygotes(jobs); // before any allocation by the driver
    std::string cmd=argc>1?argv[1]:"";
    if(cmd=="list"){ for(World*w=World::head;w;w=w->next) puts(w->name); return 0; }
    if(cmd=="one"||cmd=="replay"){
        RunSpec&sp=slots[0].spec; Shared*s=&slots[0].sh;
        if(cmd=="replay"){ if(argc<3||!load_trace(argv[2],sp)){ fprintf(stderr,"cannot read trace\n"); return 3; } }
        else { snprintf(sp.world,sizeof sp.world,"%s",arg(argc,argv,"--world","")); snprintf(sp.property,sizeof sp.property,"%s",arg(argc,argv,"--prop","*")); sp.seed=strtoull(arg(argc,argv,"--seed","1"),0,10); }
        sp.verbose=flag(argc,argv,"-vv")?2:flag(argc,argv,"-v"); sp.watch=strtoull(arg(argc,argv,"--watch","0"),0,16);
        run_one(0); print_result(stdout,sp,s);
        const char*tr=arg(argc,argv,"--trace",nullptr); if(tr) write_trace(tr,sp,s);
        return s->outcome==RUN_VIOLATION?1:0;
    }
    if(cmd=="explore"){
        std::string world=arg(argc,argv,"--world",""),prop=arg(argc,argv,"--prop","*"),out=arg(argc,argv,"--out","/tmp/simout"); uint64_t base=strtoull(arg(argc,argv,"--base","1"),0,10),n=strtoull(arg(argc,argv,"--runs","100"),0,10);
        int mv=atoi(arg(argc,argv,"--maxviol","6")); double limit=atof(arg(argc,argv,"--time","60")); bool twice=flag(argc,argv,"--twice");
        Ctl*ctl=(Ctl*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
        std::vector<pid_t> ps; for(int w=0;w<jobs;w++){ pid_t p=fork(); if(p==0){ worker(w,jobs,world,prop,base,n,limit,mv,out,ctl,twice); } ps.push_back(p); }
        int bad=0; for(pid_t p:ps){ int st; waitpid(p,&st,0); if(st) bad=1; }
        printf("{\"jobs\":%d,\"violations\":%ld,\"bad\":%d}\n",jobs,ctl->violations,bad); return bad?3:0;
    }
    fprintf(stderr,"usage: sim list|one|replay|explore\n"); return 2;
}
