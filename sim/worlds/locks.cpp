// World "locks": threads use exclusive and reader/writer spin locks in random patterns (C22).
#include "common.hpp"
#include <Pothos/Util/SpinLock.hpp>
#include <Pothos/Util/SpinLockRW.hpp>

namespace {
struct Cell { int x=0,y=0; int writers=0,readers=0; long sum=0; };
struct Probe { // who is inside; the fields are harness bookkeeping, read and written without a scheduling point
    int w=0,r=0;
    void enterW(const char*n){ sim::NoSched g; SIM_CHECK(w==0&&r==0,"C22","lock does not exclude","%s: thread %d owns it exclusively together with %d writers and %d readers",n,sim::self(),w,r); w++; }
    void leaveW(){ sim::NoSched g; w--; }
    void enterR(const char*n){ sim::NoSched g; SIM_CHECK(w==0,"C22","reader together with writer","%s: thread %d shares it while a writer owns it",n,sim::self()); r++; }
    void leaveR(){ sim::NoSched g; r--; }
};
}
SIM_WORLD(locks)
{
    sim::set_caps(60000,400000);
    const int nt=(int)sim::param("threads",2,6), nops=(int)sim::param("ops",1,24); const int kind=(int)sim::param("kind",0,3);
    struct S { Pothos::Util::SpinLock sl; Pothos::Util::SpinLockRW rw; Probe ps,pr; Cell cs,cr; int gate=0; } *s=new S();
    LRng g(sim::rnd()); std::vector<uint64_t> seeds; for(int i=0;i<nt;i++) seeds.push_back(g.next());
    // a few readers meet inside the shared lock: sharing has to be possible
    const int meet=kind!=0?(int)sim::param("meet",0,3):0; std::atomic<int> inside(0);
    std::vector<std::thread> th; ull wrote=0,wroteRW=0;
    for(int i=0;i<nt;i++) th.emplace_back([&,i]{
        LRng r(seeds[i]);
        auto excl=[&]{ s->ps.enterW("spin lock"); sim::hb_write(&s->cs,"C22","data protected by a spin lock"); int v=s->cs.x; sim::yield(); s->cs.x=v+1; if(r.chance(1,3)) sim::yield(); s->cs.y=s->cs.x; SIM_CHECK(s->cs.x==v+1,"C22","lost update","spin lock: a protected update was lost"); wrote++; s->ps.leaveW(); };
        auto wr=[&]{ s->pr.enterW("rw spin lock"); sim::hb_write(&s->cr,"C22","data protected by a rw spin lock"); int v=s->cr.x; sim::yield(); s->cr.x=v+1; if(r.chance(1,3)) sim::yield(); s->cr.y=s->cr.x; wroteRW++; s->pr.leaveW(); };
        auto rd=[&]{ s->pr.enterR("rw spin lock"); sim::hb_read(&s->cr,"C22","data protected by a rw spin lock"); int x=s->cr.x; if(r.chance(1,2)) sim::yield(); int y=s->cr.y; SIM_CHECK(x==y,"C22","torn read","rw spin lock: a reader saw a half done update"); s->pr.leaveR(); };
        if(i<meet){ s->rw.lock_shared(); s->pr.enterR("rw spin lock"); inside++; while(inside.load()<std::min(meet,nt)) sim::sleep_ns(20000); s->pr.leaveR(); s->rw.unlock_shared(); sim::count("readers met"); }
        for(int k=0;k<nops;k++){
            int op=(int)r.below(kind==0?3:kind==1?8:8); if(kind!=0&&kind!=3) op=3+(int)r.below(5);
            switch(op){
            case 0: case 1: s->sl.lock(); excl(); s->sl.unlock(); break;
            case 2: if(s->sl.try_lock()){ excl(); s->sl.unlock(); sim::count("try_lock won"); } else sim::count("try_lock lost"); break;
            case 3: s->rw.lock(); wr(); s->rw.unlock(); break;
            case 4: if(s->rw.try_lock()){ wr(); s->rw.unlock(); sim::count("rw try_lock won"); } else sim::count("rw try_lock lost"); break;
            case 5: if(s->rw.try_lock_shared()){ rd(); s->rw.unlock_shared(); sim::count("try_lock_shared won"); } else sim::count("try_lock_shared lost"); break;
            case 6: { Pothos::Util::SpinLockRW::SharedLock l(s->rw); rd(); break; }
            default: s->rw.lock_shared(); rd(); s->rw.unlock_shared(); break; }
            if(r.chance(1,4)) sim::sleep_ns(r.below(3000));
        } });
    for(auto&t:th) t.join();
    SIM_CHECK((ull)s->cs.x==wrote&&(ull)s->cr.x==wroteRW,"C22","lost update","%d/%d protected increments survive of %llu/%llu",s->cs.x,s->cr.x,wrote,wroteRW);
    // released locks are free again; readers do not hinder each other
    sim::faults_off();
    SIM_CHECK(s->sl.try_lock(),"C22","lock stuck","the spin lock cannot be taken after everyone released it"); SIM_CHECK(!s->sl.try_lock(),"C22","double lock","try_lock succeeded on an owned spin lock"); s->sl.unlock();
    SIM_CHECK(s->rw.try_lock_shared(),"C22","lock stuck","the rw lock cannot be shared after everyone released it"); SIM_CHECK(s->rw.try_lock_shared(),"C22","not shared","a second reader is refused"); SIM_CHECK(!s->rw.try_lock(),"C22","writer with readers","try_lock succeeded while two readers hold the lock"); s->rw.unlock_shared(); SIM_CHECK(!s->rw.try_lock(),"C22","writer with readers","try_lock succeeded while a reader holds the lock"); s->rw.unlock_shared();
    SIM_CHECK(s->rw.try_lock(),"C22","lock stuck","the rw lock cannot be taken after everyone released it"); SIM_CHECK(!s->rw.try_lock_shared(),"C22","reader with writer","try_lock_shared succeeded on an owned lock"); SIM_CHECK(!s->rw.try_lock(),"C22","double lock","try_lock succeeded on an owned rw lock"); s->rw.unlock();
    sim::count("exclusive sections",wrote+wroteRW); delete s;
}
