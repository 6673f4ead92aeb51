// Shared pieces of the worlds: small PRNG, instrumented block base class, thread pool choice.
#pragma once
#include "sim.h"
#include <Pothos/Framework.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Managed.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Exception.hpp>
#include <Pothos/Object/Containers.hpp>
#include <memory>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <mutex>
#include <atomic>
#include <functional>
#include <cstring>
#include <stdexcept>

typedef unsigned long long ull;

struct LRng // each actor of a world has its own stream, so dropping one choice does not shift the others
{
    uint64_t s; explicit LRng(uint64_t seed=0):s(seed){}
    uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
    uint64_t below(uint64_t n){ return n?next()%n:0; }
    uint64_t range(uint64_t lo,uint64_t hi){ return lo+below(hi-lo+1); }
    bool chance(uint64_t a,uint64_t b){ return below(b)<a; }
};

typedef std::shared_ptr<Pothos::Block> BlockPtr;

// Mutual exclusion, visibility and life cycle monitor for one block; every callback of a harness block enters it.
struct Monitor
{
    std::string name; int inside=0; const char*where=""; bool active=false; int activations=0, deactivations=0; ull entries=0;
    bool forbidden=false; // after its last commit removed it, nothing of the block may run
    Monitor(const std::string&n):name(n){}
    struct In {
        Monitor&m; const char*prev; bool nested;
        In(Monitor&m_,const char*w,bool allowNested=false):m(m_),prev(m_.where),nested(false)
        {
            if(m.inside){ if(allowNested&&m.owner==sim::self()) nested=true; else sim::violate("C05 C10 C06","overlapping block code","block %s: %s entered by thread %d while %s runs in thread %d",m.name.c_str(),w,sim::self(),m.where,m.owner); }
            SIM_CHECK(!m.forbidden,"C06 C11 C10 C13","callback after removal","block %s: %s called after the block was removed from the running design",m.name.c_str(),w);
            if(!nested){ m.inside=1; m.owner=sim::self(); }
            m.where=w; m.entries++;
            sim::hb_write(&m,"C05","state of a block");
        }
        ~In(){ if(!nested){ m.inside=0; m.owner=-1; } m.where=prev; }
    };
    int owner=-1;
    void onActivate(){ SIM_CHECK(!active,"C06 C12","activated twice","block %s activated while active",name.c_str()); active=true; activations++; }
    void onDeactivate(){ SIM_CHECK(active,"C06 C12","deactivated twice","block %s deactivated while not active",name.c_str()); active=false; deactivations++; }
    void onWork(){ SIM_CHECK(active,"C06 C12","work outside activation","block %s: work() called while the block is not active",name.c_str()); }
};

inline Pothos::ThreadPoolArgs pickPoolArgs(const char*pname, const char*mname, int maxThreads=4)
{
    // 0 threads: one thread per block
    const int n=(int)sim::param(pname,0,maxThreads);
    Pothos::ThreadPoolArgs a((size_t)n);
    const int y=(int)sim::param(mname,0,5);
    a.yieldMode=y<3?"CONDITION":y<5?"HYBRID":"SPIN";
    return a;
}
inline void waitUntil(const std::function<bool(void)>&f,uint64_t pollNs=300000){ while(!f()) sim::sleep_ns(pollNs); }
