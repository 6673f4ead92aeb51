// World "pools": blocks sharing thread pools of every size and yield mode are moved between pools, created, removed and destroyed
// by several threads at once while all of them run.  Decides C10: which thread runs which block, how many at once, nothing lost.
#include "common.hpp"
#include <algorithm>

namespace {
struct PoolRec { int id; size_t limit; std::set<uint64_t> threads; std::map<uint64_t,int> inside; size_t peak=0; };
static std::map<uint64_t,int> *owner; static std::vector<PoolRec> *pools; // which pool a thread was seen to serve
struct PBlock : Pothos::Block
{
    int id; bool src; LRng rng; Monitor mon; volatile int pool=-1; // -1: between pools
    volatile ull made=0, seen=0, works=0; volatile ull limit=0; volatile ull epoch=0;
    PBlock(int i,bool s):id(i),src(s),rng(sim::rnd()),mon("p"+std::to_string(i)){ setName(mon.name); if(s) setupOutput(0,Pothos::DType(typeid(ull))); else setupInput(0,Pothos::DType(typeid(ull))); registerCall(this,"give",&PBlock::give); registerCall(this,"count",&PBlock::count); }
    ~PBlock(){ this->setThreadPool(Pothos::ThreadPool()); SIM_CHECK(!mon.inside,"C10 C13","destroyed while running","block %s left its pool while %s runs",mon.name.c_str(),mon.where); mon.forbidden=true; sim::hb_write(&mon,"C10 C13","state of a block being destroyed"); }
    void give(const ull n){ Monitor::In g(mon,"call"); limit=limit+n; }
    ull count(){ Monitor::In g(mon,"call"); return works; }
    void activate() override { Monitor::In g(mon,"activate"); mon.onActivate(); }
    void deactivate() override { Monitor::In g(mon,"deactivate"); mon.onDeactivate(); }
    struct Inside { PBlock*b; int p; uint64_t t; Inside(PBlock*b_):b(b_),p(-1),t(sim::serial()){
            sim::NoSched ns; p=b->pool; if(p<0) return; PoolRec&r=(*pools)[p]; auto it=owner->find(t);
            if(it==owner->end()){ (*owner)[t]=p; r.threads.insert(t); }
            else SIM_CHECK(it->second==p,"C10","block run by its old pool","block %s belongs to pool %d but thread %llu of pool %d runs it",b->mon.name.c_str(),p,(ull)t,it->second);
            r.inside[t]++; if(r.inside.size()>r.peak) r.peak=r.inside.size();
            if(r.limit) SIM_CHECK(r.inside.size()<=r.limit,"C10","too many threads at once","%zu threads run blocks of pool %d, which is limited to %zu",r.inside.size(),p,r.limit); }
        ~Inside(){ if(p<0) return; sim::NoSched ns; PoolRec&r=(*pools)[p]; if(--r.inside[t]==0) r.inside.erase(t); } };
    void work() override
    {
        Monitor::In g(mon,"work"); mon.onWork(); Inside in(this); works=works+1; sim::count("work calls");
        if(rng.chance(1,4)) sim::yield(); if(sim::fault(sim::F_CONSUMER_STALL,1,30)) sim::sleep_ns(1+sim::fault_value(sim::F_CONSUMER_STALL,3000000));
        if(src){ size_t n=std::min<size_t>(output(0)->elements(),std::min<ull>(limit-made,rng.range(1,5))); ull*q=output(0)->buffer().as<ull*>(); for(size_t k=0;k<n;k++) q[k]=made+k; if(n) output(0)->produce(n); made=made+n; if(made<limit) this->yield(); }
        else { size_t n=input(0)->elements(); if(n) n=rng.range(1,n); const ull*q=input(0)->buffer().as<const ull*>(); for(size_t k=0;k<n;k++){ SIM_CHECK(q[k]==seen,"C10 C01","work lost or repeated","block %s: element %llu arrived where %llu was next",mon.name.c_str(),q[k],seen); seen=seen+1; } if(n) input(0)->consume(n); }
    }
};
typedef std::shared_ptr<PBlock> PP;
}

SIM_WORLD(pools)
{
    using sim::param; sim::set_caps(400000,4000000); sim::enable_fault(sim::F_CONSUMER_STALL); if(param("stalls",0,3)==3) sim::enable_stalls(600,1500000);
    std::map<uint64_t,int> own; owner=&own; std::vector<PoolRec> recs; pools=&recs; LRng g(sim::rnd());
    const int pairs=(int)param("pairs",1,4), npools=(int)param("pools",1,3), movers=(int)param("movers",0,3), moves=(int)param("moves",1,6); const int base=sim::live_threads();
    {
    std::vector<Pothos::ThreadPool> P; 
    for(int i=0;i<npools;i++){ auto a=pickPoolArgs(("threads"+std::to_string(i)).c_str(),("yield"+std::to_string(i)).c_str(),3); P.push_back(Pothos::ThreadPool(a)); recs.push_back(PoolRec{i,a.numThreads,{},{}}); }
    std::vector<PP> B; for(int i=0;i<pairs*2;i++) B.push_back(std::make_shared<PBlock>(i,i%2==0));
    // threads of pools that ended may not be confused with new ones: serial numbers are unique
    auto move=[&](PBlock&b,int p){ b.pool=-1; b.setThreadPool(P[p]); SIM_CHECK(b.getThreadPool()==P[p],"C10","pool not set","block %s does not report its new pool",b.mon.name.c_str()); { sim::NoSched ns; b.pool=p; } sim::count("moves"); };
    std::unique_ptr<Pothos::Topology> topo(new Pothos::Topology()); int design=0; topo->setThreadPool(P[0]);
    for(int i=0;i<pairs;i++) topo->connect(BlockPtr(B[2*i]),0,BlockPtr(B[2*i+1]),0);
    sim::quiet(true); topo->commit(); for(auto&b:B){ sim::NoSched ns; b->pool=0; } if(param("spread",0,1)) for(auto&b:B) move(*b,(int)g.below(npools)); sim::quiet(false);
    for(auto&b:B) if(b->src) b->call("give",(ull)g.range(5,60));
    std::atomic<int> extra(100); std::vector<std::thread> th;
    for(int m=0;m<movers;m++) th.emplace_back([&,m]{ LRng r(m*31+7); for(int k=0;k<moves;k++){ if(r.chance(1,2)) sim::sleep_ns(r.range(1,2500000));
        switch(r.below(6)){
        case 0: { // a block that lives only briefly in a shared pool
            auto b=std::make_shared<PBlock>(extra++,true); int p=(int)r.below(P.size()); move(*b,p); if(r.chance(1,2)) (void)b->call<ull>("count"); if(r.chance(1,2)) sim::sleep_ns(r.range(1,900000)); b->pool=-1; b.reset(); sim::count("short-lived blocks"); break; }
        case 1: { // a private pool, released while the block stays in it, then left
            PBlock&b=*B[(r.below(B.size())/std::max(1,movers))*movers+m<B.size()?(r.below(B.size()/std::max(1,movers)))*movers+m:m%B.size()]; if(b.id%movers!=m) break; b.pool=-1; { Pothos::ThreadPool t(Pothos::ThreadPoolArgs((size_t)r.below(3))); b.setThreadPool(t); } if(r.chance(1,2)) sim::sleep_ns(r.range(1,1500000)); move(b,(int)r.below(P.size())); sim::count("private pools"); break; }
        default: { // each mover owns the blocks with its residue: one block is never moved by two threads at once
            std::vector<PBlock*> mine; for(auto&b:B) if(b->id%movers==m) mine.push_back(b.get()); if(mine.empty()) break; move(*mine[r.below(mine.size())],(int)r.below(P.size())); } } } });
    if(param("released",0,1)) { /* the user's handles go early; blocks and movers keep the pools alive */ }
    for(auto&t:th) t.join(); th.clear();
    if(param("recommit",0,2)==2){ int p=(int)g.below(npools); design=p; topo->setThreadPool(P[p]); for(auto&b:B) b->pool=-1; topo->commit(); sim::NoSched ns; for(auto&b:B){ SIM_CHECK(b->getThreadPool()==P[p],"C10","pool not set","block %s does not use the design's pool after a commit",b->mon.name.c_str()); b->pool=p; } }
    // every block still runs and nothing was lost
    for(auto&b:B) if(b->src) b->call("give",(ull)g.range(1,20));
    if(g.chance(1,2)) P.clear();
    waitUntil([&]{ sim::NoSched ns; for(int i=0;i<pairs;i++) if(B[2*i]->made<B[2*i]->limit||B[2*i+1]->seen<B[2*i]->made) return false; return true; });
    for(int i=0;i<pairs;i++) SIM_CHECK(B[2*i+1]->seen==B[2*i]->limit,"C10 C01","work lost or repeated","%llu of %llu elements arrived",(ull)B[2*i+1]->seen,(ull)B[2*i]->limit);
    // remove and destroy some blocks while the others stay in the pool
    const int gone=(int)g.below(pairs+1); for(int i=0;i<gone;i++) topo->disconnect(BlockPtr(B[2*i]),0,BlockPtr(B[2*i+1]),0);
    for(auto&b:B) b->pool=-1; topo->commit(); /* applies the design's pool to all its blocks */ { sim::NoSched ns; for(int i=2*gone;i<2*pairs;i++) B[i]->pool=design; } for(int i=0;i<gone;i++){ B[2*i]->pool=-1; B[2*i+1]->pool=-1; B[2*i].reset(); B[2*i+1].reset(); }
    for(int i=gone;i<pairs;i++) B[2*i]->call("give",5ull);
    waitUntil([&]{ sim::NoSched ns; for(int i=gone;i<pairs;i++) if(B[2*i+1]->seen<B[2*i]->limit) return false; return true; });
    sim::quiet(true); topo->disconnectAll(); topo->commit(); topo.reset(); B.clear(); P.clear();
    }
    SIM_CHECK(sim::live_threads()==base,"C10 C13","thread not released","%d threads still run after every pool was released",sim::live_threads()-base);
}
