// World "idle": a design whose blocks are active now and then, watched by waitInactive() while timers run late, threads lose
// their processor and the wall clock jumps.  Decides C09 against the recorded history of every block's activity.
#include "common.hpp"
#include <algorithm>

namespace {
struct Event { uint64_t t; uint64_t seen; int block; const char*what; }; // happened at t; the block had finished handling it by 'seen'
static std::vector<Event> *ev; static uint64_t stopAt=0; static std::atomic<int> liveRounds(0);
static void happened(int block,const char*what){ sim::NoSched ns; for(auto&e:*ev) if(e.block==block&&e.seen==~0ull) e.seen=sim::now_ns(); ev->push_back(Event{sim::now_ns(),~0ull,block,what}); sim::count("activity"); }
static void settled(int block){ sim::NoSched ns; for(auto i=ev->rbegin();i!=ev->rend();++i) if(i->block==block&&i->seen==~0ull) i->seen=sim::now_ns(); }

enum Kind { PERIODIC, SINK, RELAY, BOUNCE, PROBED, MSGS, K__N };
struct IBlock : Pothos::Block
{
    Kind kind; int id; LRng rng; uint64_t period; int left; bool fail; uint64_t slot=0; int turn=0; Monitor mon; int trigger=0;
    IBlock(Kind k,int i,uint64_t per,int n):kind(k),id(i),rng(sim::rnd()),period(per),left(n),fail(false),mon("i"+std::to_string(i))
    {
        setName("i"+std::to_string(i));
        if(k==SINK||k==RELAY||k==MSGS) setupInput(0,Pothos::DType(typeid(ull)));
        if(k==PERIODIC||k==RELAY||k==MSGS) setupOutput(0,Pothos::DType(typeid(ull)));
        if(k==BOUNCE||k==PROBED||k==PERIODIC){ registerSignal("ping"); registerCall(this,"bounce",&IBlock::bounce); registerCall(this,"ask",&IBlock::ask); registerProbe("ask"); registerCall(this,"noted",&IBlock::noted); }
        if(k==PROBED) setupInput(0,Pothos::DType(typeid(ull))); // waits for data that rarely comes
        registerCall(this,"kick",&IBlock::kick);
    }
    bool prepare() override { settled(id); return true; }
    void activate() override { if(fail) throw std::runtime_error("injected activation failure"); }
    bool go(){ return left>0&&sim::now_ns()<stopAt; }
    void nap(){ if(period) sim::sleep_ns(rng.range(period/2,period)); }
    void kick(){ if(kind==BOUNCE||kind==PROBED||kind==PERIODIC) this->call("ping",1ull); else trigger++; }
    void bounce(const ull v){ happened(id,"slot"); nap(); if(go()){ left--; this->call("ping",v+1); } }
    ull ask(const ull v){ happened(id,"probe"); nap(); return v; }
    void noted(const ull){ happened(id,"slot"); }
    void work() override
    {
        switch(kind){
        case PERIODIC: if(go()){ left--; if(slot){ uint64_t k=sim::now_ns()/slot; if((int)(k%2)!=turn) sim::sleep_ns((k+1)*slot-sim::now_ns()+rng.below(slot/4)); else sim::sleep_ns(rng.below(slot/3)); } else nap(); size_t n=std::min<size_t>(output(0)->elements(),rng.range(1,4)); if(n){ happened(id,"produce"); output(0)->produce(n); } if(rng.chance(1,3)) this->call("ping",1ull); this->yield(); } break;
        case SINK: case PROBED: { while(input(0)->hasMessage()){ (void)input(0)->popMessage(); happened(id,"pop"); } size_t n=input(0)->elements(); if(n){ if(rng.chance(1,3)) nap(); n=rng.range(1,n); happened(id,"consume"); input(0)->consume(n); } break; }
        case RELAY: { size_t n=std::min(input(0)->elements(),output(0)->elements()); if(n){ if(rng.chance(1,4)) nap(); happened(id,"copy"); input(0)->consume(n); output(0)->produce(n); } while(input(0)->hasMessage()){ auto m=input(0)->popMessage(); happened(id,"message"); output(0)->postMessage(m); } break; }
        case MSGS: { bool got=trigger>0; if(trigger) trigger--; while(input(0)->hasMessage()){ (void)input(0)->popMessage(); happened(id,"message"); got=true; } if(input(0)->elements()){ happened(id,"consume"); input(0)->consume(input(0)->elements()); } if(got&&go()){ left--; nap(); happened(id,"post"); output(0)->postMessage(Pothos::Object((ull)left)); } break; }
        default: break; }
    }
};
typedef std::shared_ptr<IBlock> IP;
}

SIM_WORLD(idle)
{
    using sim::param; sim::set_caps(300000,3000000); std::vector<Event> events; events.reserve(65536); ev=&events;
    LRng g(sim::rnd()); const uint64_t ms=1000000; 
    const uint64_t idle=param("idleMs",6,40)*ms; const int rel=(int)param("period",0,6); // activity gaps relative to the idle time
    static const int per10[]={0,2,4,6,9,12,20}; const uint64_t period=idle*per10[rel]/10;
    if(param("jumps",0,1)) sim::enable_fault(sim::F_CLOCK_JUMP); sim::enable_fault(sim::F_ACTIVATE_THROW);
    const int chains=(int)param("chains",1,3); std::vector<IP> B; std::vector<std::pair<BlockPtr,BlockPtr>> conns;
    std::unique_ptr<Pothos::ThreadPool> pool(new Pothos::ThreadPool(pickPoolArgs("threads","yield")));
    Pothos::Topology topo; topo.setThreadPool(*pool); stopAt=0; 
    auto add=[&](Kind k){ B.push_back(std::make_shared<IBlock>(k,(int)B.size(),period,(int)g.range(2,40))); return B.back(); };
    std::vector<IP> kickable; const bool alternate=param("alternate",0,3)==3; const uint64_t slot=idle*param("slotTenths",6,14)/10;
    if(alternate) for(int c=0;c<2;c++){ BlockPtr s=add(PERIODIC),d=add(SINK); B[B.size()-2]->slot=slot; B[B.size()-2]->turn=c; B[B.size()-2]->left=400; topo.connect(s,0,d,0); } else
    for(int c=0;c<chains;c++) switch(g.below(5)){
        case 0: { BlockPtr s=add(PERIODIC),d=add(SINK); topo.connect(s,0,d,0); break; }
        case 1: { BlockPtr s=add(PERIODIC),r=add(RELAY),d=add(SINK); topo.connect(s,0,r,0); topo.connect(r,0,d,0); if(g.chance(1,2)){ BlockPtr p=add(PROBED); topo.connect(s,"ping",p,"probeAsk"); topo.connect(r,0,p,0); } break; }
        case 2: { BlockPtr a=add(BOUNCE),b=add(BOUNCE); topo.connect(a,"ping",b,"bounce"); topo.connect(b,"ping",a,"bounce"); kickable.push_back(B.back()); break; }
        case 3: { BlockPtr a=add(BOUNCE),p=add(PROBED),n=add(BOUNCE); topo.connect(a,"ping",p,"probeAsk"); topo.connect(p,"askTriggered",n,"bounce"); topo.connect(n,"ping",a,"bounce"); kickable.push_back(B[B.size()-3]); break; }
        default: { BlockPtr a=add(MSGS),b=add(MSGS); topo.connect(a,0,b,0); topo.connect(b,0,a,0); kickable.push_back(B.back()); break; } }
    bool failing=false; BlockPtr broken;
    if(sim::fault(sim::F_ACTIVATE_THROW,1,6)){ auto f=add(SINK); f->fail=true; failing=true; BlockPtr d=f,s=add(PERIODIC); broken=d; topo.connect(s,0,d,0); }
    sim::quiet(true);
    stopAt=~0ull; bool threw=false; try{ topo.commit(); } catch(const Pothos::Exception&){ threw=true; }
    sim::quiet(false); SIM_CHECK(threw==failing,"C12 C09","commit failed","commit %s",threw?"failed":"succeeded");
    stopAt=sim::now_ns()+idle*param("activeFor",1,12); { const int st=(int)param("stalls",0,3); if(st) sim::enable_stalls(st==1?300:st==2?30:100,idle*2,st==3?sim::self():-1); } 
    std::atomic<bool> done(false); std::vector<std::thread> th;
    th.emplace_back([&]{ LRng r(sim::rnd()); for(auto&k:kickable) k->call("kick"); while(!done&&sim::now_ns()<stopAt){ sim::sleep_ns(1+r.below(period?period:idle)); if(!kickable.empty()&&r.chance(1,2)) kickable[r.below(kickable.size())]->call("kick"); } });
    auto judge=[&](uint64_t T){
        const uint64_t t0=sim::now_ns(), w0=sim::waited_ns(); bool ok; { ok=topo.waitInactive(idle/1e9,T/1e9); } const uint64_t t1=sim::now_ns(), w=sim::waited_ns()-w0; sim::NoSched ns; sim::count(ok?"reported idle":"timed out");
        if(ok){ // some stretch of the requested length inside the call in which no block was active
            uint64_t best=0; std::vector<uint64_t> starts(1,t0); for(auto&e:events) if(e.t>t0&&e.t<=t1) starts.push_back(e.t);
            for(uint64_t a:starts){ uint64_t b=t1; for(auto&e:events) if(e.t>a){ if(e.seen<b) b=std::max(a,e.seen); } if(b>a) best=std::max(best,b-a); }
            if(best+2000<idle){ for(auto&e:events) if(e.t+idle>t0) sim::note("event %s of i%d at %.6f until %.6f",e.what,e.block,e.t/1e9,e.seen==~0ull?-1:e.seen/1e9); sim::violate("C09","reported idle while active","waitInactive(%.3f s) from %.6f to %.6f reported idle but the longest quiet stretch was %.6f s",idle/1e9,t0/1e9,t1/1e9,best/1e9); }
        } else {
            SIM_CHECK(T!=0,"C09","gave up without a timeout","waitInactive without a timeout returned false");
            SIM_CHECK(t1-t0+2000>=T,"C09","timed out early","waitInactive with a timeout of %.6f s gave up after %.6f s",T/1e9,(t1-t0)/1e9);
        }
        if(T){ uint64_t late=t1-t0>T?t1-t0-T:0, allowed=idle/3+21*ms+w+2*ms; SIM_CHECK(late<=allowed,"C09","timed out late","waitInactive with a timeout of %.6f s returned %.6f s after it had passed (%.6f s explained by delays)",T/1e9,late/1e9,allowed/1e9); }
        return ok; };
    const int rounds=(int)param("rounds",1,4);
    for(int r=0;r<rounds;r++){ uint64_t T=g.chance(1,4)?0:g.range(idle/4,idle*6); if(T==0&&rel<4&&stopAt==~0ull) T=idle*3; judge(T); if(g.chance(1,2)) sim::sleep_ns(g.below(idle)); }
    // the design finishes: waiting succeeds, without a timeout and with a generous one
    waitUntil([&]{ return sim::now_ns()>=stopAt; },1*ms); done=true; for(auto&t:th) t.join(); th.clear();
    SIM_CHECK(judge(0),"C09","finished design not idle","waitInactive returned false without a timeout");
    { uint64_t last; { sim::NoSched ns; last=events.empty()?0:events.back().t; } const uint64_t t0=sim::now_ns(), w0=sim::waited_ns(); uint64_t T=idle*3+200*ms; bool ok=judge(T); sim::NoSched ns; bool quiet=events.empty()||events.back().t<=t0; (void)last; SIM_CHECK(ok||!quiet||sim::waited_ns()-w0>20*ms,"C09","finished design not idle","waitInactive(%.3f, %.3f) from %.6f reported failure on a design that had finished",idle/1e9,T/1e9,t0/1e9); }
    sim::quiet(true); topo.disconnectAll(); topo.commit();
}
