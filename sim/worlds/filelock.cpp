// World "filelock" (C26): holders (each its own FileLock object, as a thread or a simulated process that may die) contend for
// file locks while system calls fail or are interrupted.
#include "common.hpp"
#include <Pothos/Util/FileLock.hpp>

namespace {
const char *const P="C26";
struct Occ { int holder=-1; ull value=0; int entries=0; } occ[2];
}
SIM_WORLD(filelock)
{
    sim::set_caps(200000,400000); for(auto&o:occ) o=Occ();
    const int nt=(int)sim::param("holders",2,5), nops=(int)sim::param("rounds",1,10), nfile=(int)sim::param("files",1,2);

    sim::kern::enable(true);
    { Pothos::Util::FileLock warm("/simfs/warm"); warm.lock(); try { throw Pothos::RuntimeException("x","y"); } catch(const Pothos::Exception&){} }
    for(int f:{sim::F_OPEN_FAIL,sim::F_LOCK_FAIL,sim::F_EINTR,sim::F_CLOSE_FAIL,sim::F_HOLDER_CRASH}) sim::enable_fault((sim::FaultKind)f);
    std::vector<uint64_t> seeds; for(int i=0;i<nt;i++) seeds.push_back(sim::rnd());
    std::vector<std::unique_ptr<LRng>> rngs; for(int i=0;i<nt;i++) rngs.emplace_back(new LRng(seeds[i]));
    std::atomic<int> dead(0),failedCtor(0); std::vector<std::thread> th; th.reserve(nt);
    size_t blocks0=0; bool exact=true;
    auto body=[&](int i){
        LRng&r=*rngs[i];
        for(int k=0;k<nops;k++){
            const int f=(int)r.below(nfile); const char*path=f?"/simfs/lock1":"/simfs/lock0"; Occ&o=occ[f];
            Pothos::Util::FileLock*l=nullptr; const size_t before=sim::heap_live_blocks();
            try { l=new Pothos::Util::FileLock(path); } catch(const Pothos::Exception&){ failedCtor++; sim::count("open failed"); (void)before; continue; }
            const int n=1+(int)r.below(3); bool died=false;
            for(int q=0;q<n;q++){
                bool got=false; try { l->lock(); got=true; if(r.chance(1,5)) l->lock(); } catch(const Pothos::Exception&){ sim::count(got?"relock failed":"lock failed or interrupted"); SIM_CHECK(!got,P,"relock failed","locking a lock already held failed"); }
                if(got){
                    SIM_CHECK(o.holder<0,P,"two holders","file %s locked by holder %d while holder %d has it",path,i,o.holder);
                    o.holder=i; o.entries++; sim::hb_write(&o.value,P,"data guarded by a file lock"); ull v=o.value; if(r.chance(1,2)) sim::sleep_ns(r.below(300000)); else sim::yield();
                    SIM_CHECK(o.holder==i&&o.value==v,P,"two holders","data guarded by %s changed while holder %d has the lock",path,i); o.value=v+1; 
                    if(sim::fault(sim::F_HOLDER_CRASH,1,12)){ o.holder=-1; sim::kern::exit_process(sim::self()); sim::count("holder died"); died=true; break; }
                    o.holder=-1; bool drop=r.chance(1,4); if(drop&&q+1==n) break; // released by destruction
                    l->unlock(); if(r.chance(1,6)) l->unlock(); }
            }
            if(died){ dead++; exact=false; return; } // the dead process's objects are never destroyed
            delete l; } };
    blocks0=sim::heap_live_blocks(); const size_t fds0=sim::kern::open_fds();
    for(int i=0;i<nt;i++) th.emplace_back(body,i);
    for(auto&t:th) t.join();
    // whoever failed or died, the locks are free and can be taken again
    sim::faults_off();
    for(int f=0;f<nfile;f++){ Pothos::Util::FileLock l(f?"/simfs/lock1":"/simfs/lock0"); l.lock(); SIM_CHECK(occ[f].holder<0,P,"two holders","lock taken while held"); l.unlock(); }
    SIM_CHECK(sim::kern::open_fds()==fds0,P,"descriptor leaked","%zu descriptors remain open",sim::kern::open_fds()-fds0);
    const size_t blocks1=sim::heap_live_blocks(); if(exact) SIM_CHECK(blocks1<=blocks0,P,"memory leaked","%zu allocations remain after %d failed and every successful lock object is gone",blocks1-blocks0,(int)failedCtor);
    sim::kern::enable(false);
}
