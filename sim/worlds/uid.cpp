// World "uid" (C27): threads of simulated processes on simulated hosts create identifiers at the same time.
#include "common.hpp"
#include <Pothos/Util/UID.hpp>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unordered_set>

namespace {
const char *const P="C27";
enum { MAXID=512, LEN=160 };
struct Out { int n; char id[MAXID][LEN]; };
void produce(Out*out,int nt,int nops)
{
    std::vector<std::thread> th; std::atomic<int> n(0);
    for(int i=0;i<nt;i++) th.emplace_back([&,i]{
        for(int k=0;k<nops;k++){ std::string s; if(k&1){ struct B: Pothos::Util::UID{}; B b; s=b.uid(); } else { Pothos::Util::UID u; s=u.uid(); SIM_CHECK(s==u.uid(),P,"identifier changed","an object's identifier changed"); Pothos::Util::UID c(u); (void)c; }
            SIM_CHECK(!s.empty()&&s.size()<LEN,P,"bad identifier","identifier of %zu characters",s.size()); int q=n++; if(q<MAXID) snprintf(out->id[q],LEN,"%s",s.c_str()); } });
    for(auto&t:th) t.join(); out->n=n;
}
}
static int pidKind; static int pid_(int p){ static const int step[]={7,1,256,4096,32768,65536,1000000}; return 1000+p*step[pidKind]; }
SIM_WORLD(uid)
{
    pidKind=(int)sim::param("pids",0,6);
    if(sim::param("many",0,249)==0){ // a process that lives long
        sim::NoSched n; std::unordered_set<std::string> all; for(int k=0;k<140000;k++){ Pothos::Util::UID u; if(!all.insert(u.uid()).second) sim::violate(P,"identifier repeated","identifier %s was handed out again after %d others",u.uid().c_str(),k); } sim::count("identifiers",140000); return; }
    sim::set_caps(400000,400000);
    const int nt=(int)sim::param("threads",1,5), nops=(int)sim::param("ids",1,20), procs=(int)sim::param("processes",1,3), hosts=(int)sim::param("hosts",1,2);
    const bool byName=sim::param("hostsDifferBy",0,1)==0; const char*const hn[]={"alpha",byName?"beta":"alpha"}; // hosts of the same name still differ by their network interface std::vector<std::vector<std::string>> all;
    static Out out; std::set<std::string> seen; int made=0;
    // One host and process after another: what makes identifiers distinct must not depend on when processes run.  The
    // process-wide counter restarts in each simulated process because each one forks from the same initial image.
    static char (*shared)[sizeof(Out)]=nullptr; shared=(char(*)[sizeof(Out)])mmap(nullptr,sizeof(Out)*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    for(int h=0;h<hosts;h++) for(int p=0;p<procs;p++){
        if(h==0&&p==0) continue;
        pid_t c=fork(); if(c==0){ sim::kern::host_name=hn[h]; if(!byName) sim::kern::node_of[0]=h; sim::kern::pid=pid_(p); Out*o=(Out*)shared[h*3+p]; Pothos::Util::UID*keep=nullptr; o->n=0; for(int k=0;k<nt*nops&&k<MAXID;k++){ delete keep; keep=new Pothos::Util::UID(); snprintf(o->id[k],LEN,"%s",keep->uid().c_str()); o->n++; } _exit(0); }
        int st; waitpid(c,&st,0); }
    sim::kern::host_name=hn[0]; sim::kern::pid=1000; produce(&out,nt,nops); memcpy(shared[0],&out,sizeof out);
    for(int h=0;h<hosts;h++) for(int p=0;p<procs;p++){ Out*o=(Out*)shared[h*3+p]; SIM_CHECK(o->n>0,P,"no identifiers","process %d on host %d made no identifiers",p,h); for(int k=0;k<o->n&&k<MAXID;k++){ made++; SIM_CHECK(seen.insert(o->id[k]).second,P,"identifier repeated","identifier %s was handed out twice (seen again in process %d on host %d)",o->id[k],p,h); } }
    sim::count("identifiers",made);
}
