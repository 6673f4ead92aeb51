// World "slots": blocks that emit signals, handle slots, answer probes and serve external calls, all at once.
// Decides C04 (every emission handled exactly once per connected slot, in order, with its arguments, in the receiver's context)
// and C05 (no two pieces of one block's code overlap; every external call runs once and returns its own result or exception).
#include "common.hpp"
#include <Pothos/Proxy.hpp>

namespace {
enum { NSIG=2, NSLOT=2 };
struct SBlock;
struct Conn { int src,sig,dst,slot; }; // sig NSIG: probe result signal; slot NSLOT: relay slot, NSLOT+1: probe slot
struct World_ { std::vector<std::shared_ptr<SBlock>> blocks; std::vector<Conn> conns; bool throwing=false; SBlock*floodTo=nullptr,*floodFrom=nullptr; } *W;

// what an emission carries: emitter, signal, running number within the emitter
static std::string text(ull v){ return "t"+std::to_string(v*2654435761ull); }

struct SBlock : Pothos::Block
{
    int id; LRng rng; Monitor mon; std::atomic<int> toEmit; bool buffered;
    ull emitted=0;                                 // emissions by this block, all signals
    ull sigCount[NSIG+2]={0,0,0,0};
    std::vector<ull> log; std::vector<std::vector<ull>> emittedOn;       // values emitted per signal, in order
    std::vector<std::map<int,std::vector<ull>>> got; // got[slot][emitter] -> values in order
    ull callsRun=0, probed=0; std::set<ull> callIds; ull shared=0;
    SBlock(int i,int n,bool buf):id(i),rng(sim::rnd()),mon("b"+std::to_string(i)),toEmit(n),buffered(buf),emittedOn(NSIG+2),got(NSLOT+2)
    {
        setName(mon.name);
        for(int s=0;s<NSIG;s++) registerSignal("sig"+std::to_string(s));
        registerSignal("relayed");
        registerCall(this,"slot0",&SBlock::slot0); registerCall(this,"slot1",&SBlock::slot1); registerCall(this,"relay",&SBlock::relay);
        registerCall(this,"compute",&SBlock::compute); registerCall(this,"emitNow",&SBlock::emitNow); registerCall(this,"info",&SBlock::info); registerProbe("info");
        registerCall(this,"over",&SBlock::over1); registerCall(this,"over",&SBlock::over2);
        if(buf) setupInput(0,Pothos::DType(typeid(ull))); // a block that waits for data still has to serve its slots
    }
    void activate() override { Monitor::In g(mon,"activate"); mon.onActivate(); if(rng.chance(1,3)) emit(0,1); }
    void deactivate() override { Monitor::In g(mon,"deactivate"); mon.onDeactivate(); }
    void emit(int sig,int n)
    {
        for(int k=0;k<n;k++){ ull v=((ull)id<<40)|((ull)sig<<32)|(ull)emittedOn[sig].size(); emittedOn[sig].push_back(v); log.push_back(v); emitted++;
            if(sig==0) this->call("sig0",v,text(v)); else this->call("sig1",v,text(v)); }
    }
    void record(int slot,ull v,const std::string&s,const char*where)
    {
        const int from=(int)(v>>40);
        SIM_CHECK(s==text(v),"C04","slot arguments","block %s %s: value %llx arrived with text %s",mon.name.c_str(),where,v,s.c_str());
        got[slot][from].push_back(v);
        sim::count("slot calls");
        if(W->floodTo==this){ // stuck in its first call until the emitter is held back
            W->floodTo=nullptr; SBlock*e=W->floodFrom; for(ull last=~0ull;last!=e->emitted;){ last=e->emitted; sim::sleep_ns(4000000); }
            if(e->toEmit>20) e->toEmit=20; sim::count("slow slots"); }
        // a slow or failing handler
        if(rng.chance(1,6)) sim::yield();
        if(W->throwing&&sim::fault(sim::F_SLOT_THROW,1,8)) throw std::runtime_error("injected slot failure");
    }
    void slot0(const ull v,const std::string&s){ Monitor::In g(mon,"slot"); SIM_CHECK(mon.active,"C06 C04","slot outside activation","block %s: slot called while the block is not active",mon.name.c_str()); record(0,v,s,"slot0"); }
    void slot1(const ull v,const std::string&s){ Monitor::In g(mon,"slot"); record(1,v,s,"slot1"); }
    void relay(const ull v,const std::string&s)
    {
        Monitor::In g(mon,"slot"); ull r=((ull)id<<40)|(2ull<<32)|(ull)emittedOn[2].size(); emittedOn[2].push_back(r); log.push_back(r); emitted++; this->call("relayed",r,text(r)); record(2,v,s,"relay");
    }
    std::string info(const ull v,const std::string&s){ Monitor::In g(mon,"probe"); SIM_CHECK(s==text(v),"C04","slot arguments","block %s probe: value %llx with text %s",mon.name.c_str(),v,s.c_str()); got[3][(int)(v>>40)].push_back(v); ull r=((ull)id<<40)|(3ull<<32)|(ull)emittedOn[3].size(); emittedOn[3].push_back(r); log.push_back(r); sim::count("probes"); return std::to_string(r); }
    void infoRx(int slot,const std::string&r){ got[slot][(int)(std::stoull(r)>>40)].push_back(std::stoull(r)); }
    ull compute(const ull a,const std::string&s)
    {
        Monitor::In g(mon,"external call"); callsRun++;
        SIM_CHECK(s==text(a),"C05","call arguments","block %s: call %llx arrived with text %s",mon.name.c_str(),a,s.c_str());
        SIM_CHECK(callIds.insert(a).second,"C05","call repeated","block %s: call %llx ran twice",mon.name.c_str(),a);
        ull keep=++shared; if(rng.chance(1,3)) sim::yield(); if(rng.chance(1,12)) sim::sleep_ns(rng.range(1,2500000));
        SIM_CHECK(shared==keep,"C05","overlapping block code","block %s: state changed under a running call",mon.name.c_str());
        if(W->throwing&&sim::fault(sim::F_CALL_THROW,1,6)) throw Pothos::RuntimeException("call","refused "+std::to_string(a));
        return a*3+1;
    }
    void emitNow(const int sig,const int n){ Monitor::In g(mon,"external call"); emit(sig,n); }
    std::string over1(const ull a){ Monitor::In g(mon,"external call"); return "one "+std::to_string(a); }
    std::string over2(const ull a,const ull b){ Monitor::In g(mon,"external call"); return "two "+std::to_string(a+b); }
    void work() override
    {
        Monitor::In g(mon,"work"); mon.onWork(); ull keep=++shared;
        if(!buffered&&toEmit>0){ int n=(int)std::min<ull>((ull)toEmit.load(),rng.range(1,4)); toEmit-=n; for(int k=0;k<n;k++) emit((int)rng.below(NSIG),1); if(toEmit>0) this->yield(); }
        if(rng.chance(1,8)) sim::yield();
        SIM_CHECK(shared==keep,"C05","overlapping block code","block %s: state changed under work()",mon.name.c_str());
        if(sim::fault(sim::F_WORK_THROW,1,40)){ this->yield(); throw std::runtime_error("injected work failure"); }
    }
};
// receives probe results (strings) and relayed values
struct RBlock : SBlock { RBlock(int i):SBlock(i,0,false){ registerCall(this,"onInfo",&RBlock::onInfo); } void onInfo(const std::string&r){ Monitor::In g(mon,"slot"); infos.push_back(std::stoull(r)); infosByEmitter[(int)(infos.back()>>40)].push_back(infos.back()); n=n+1; if(W->throwing&&sim::fault(sim::F_SLOT_THROW,1,8)) throw std::runtime_error("injected slot failure"); } std::vector<ull> infos; std::map<int,std::vector<ull>> infosByEmitter; volatile ull n=0; };
}

SIM_WORLD(slots)
{
    using sim::param; sim::set_caps(300000,2500000);
    sim::enable_fault(sim::F_SLOT_THROW); sim::enable_fault(sim::F_CALL_THROW); sim::enable_fault(sim::F_WORK_THROW);
    World_ w; W=&w; LRng g(sim::rnd());
    const bool calls=sim::property_is("C05");
    const int nb=(int)param("blocks",1,4), nconn=(int)param("connections",1,8), nemit=(int)param("emissions",0,30), ncallers=(int)param("callers",calls?1:0,3), ncalls=(int)param("calls",1,6), moves=(int)param("moves",0,3);
    w.throwing=param("throwing",0,1)==1;
    const bool flood=param("flood",0,15)==0;
    for(int i=0;i<nb;i++) w.blocks.push_back(std::make_shared<SBlock>(i,nemit,g.chance(1,4)&&!(flood&&i==0)));
    auto rx=std::make_shared<RBlock>(nb); w.blocks.push_back(rx); 
    // an emitter that never stops by itself and a slot that is stuck for long: the emitter must be held back, not the calls dropped
    if(flood){ w.blocks[0]->toEmit=2600; w.floodFrom=w.blocks[0].get(); w.floodTo=rx.get(); w.conns.push_back(Conn{0,(int)g.below(NSIG),nb,0}); }

    static const char*const sigN[]={"sig0","sig1","relayed","infoTriggered"}; static const char*const slotN[]={"slot0","slot1","relay","probeInfo"};
    std::atomic<int> callersLeft(ncallers); std::atomic<bool> stop(false);
    {
        Pothos::ThreadPool poolA(pickPoolArgs("threadsA","yieldA")), poolB(pickPoolArgs("threadsB","yieldB",2));
        Pothos::Topology topo; topo.setThreadPool(poolA);
        // relays only go to higher numbered blocks: no cycles, so everything ends
        for(int k=0;k<nconn;k++){ Conn c; c.src=(int)g.below(nb); c.sig=(int)g.below(NSIG); c.dst=(int)g.below(nb+1); c.slot=(int)g.below(4); if(c.dst==c.src) c.dst=nb; bool dup=false; for(auto&o:w.conns) if(o.src==c.src&&o.sig==c.sig&&o.dst==c.dst&&o.slot==c.slot) dup=true; if(!dup) w.conns.push_back(c); }
        for(int i=0;i<nb;i++){ if(g.chance(1,2)){ Conn c{i,2,nb,(int)g.below(2)}; w.conns.push_back(c); } if(g.chance(1,2)) w.conns.push_back(Conn{i,3,nb,4}); }
        sim::quiet(true);
        for(auto&c:w.conns) topo.connect(BlockPtr(w.blocks[c.src]),sigN[c.sig],BlockPtr(w.blocks[c.dst]),c.slot==4?"onInfo":slotN[c.slot]);
        if(param("commitSched",0,5)==0) sim::quiet(false);
        topo.commit(); sim::quiet(false);
        std::vector<bool> inDesign(nb+1,false); for(auto&c:w.conns) inDesign[c.src]=inDesign[c.dst]=true;
        std::vector<std::thread> th; std::mutex hm; std::vector<std::vector<ull>> results(ncallers);
        for(int t=0;t<ncallers;t++) th.emplace_back([&,t]{ LRng r(1000+t);
            for(int k=0;k<ncalls;k++){ auto&b=w.blocks[r.below(nb+1)]; const ull a=((ull)(t+1)<<32)|((ull)k<<8)|(ull)b->id; 
                switch(r.below(6)){
                case 0: b->call("emitNow",(int)r.below(NSIG),(int)r.range(1,3)); break;
                case 1: { auto p=Pothos::ProxyEnvironment::make("managed")->makeProxy(Pothos::Object(BlockPtr(b))); ull res=0; bool threw=false; try{ res=p.call<ull>("compute",a,text(a)); } catch(const Pothos::Exception&ex){ threw=true; SIM_CHECK(ex.displayText().find("refused "+std::to_string(a))!=std::string::npos,"C05","wrong exception","call %llx through a proxy failed with: %s",a,ex.displayText().c_str()); }
                    SIM_CHECK(threw||res==a*3+1,"C05","wrong result","call %llx through a proxy returned %llx",a,res); sim::count("external calls"); break; }
                case 2: { std::string s1=b->call<std::string>("over",a); std::string s2=b->call<std::string>("over",a,1ull); SIM_CHECK(s1=="one "+std::to_string(a)&&s2=="two "+std::to_string(a+1),"C05","wrong result","overloaded calls returned '%s' and '%s'",s1.c_str(),s2.c_str()); break; }
                case 3: { bool threw=false; try{ b->call("noSuchCall",a); } catch(const Pothos::Exception&){ threw=true; } SIM_CHECK(threw,"C05","unknown call succeeded","calling an unregistered name did not fail"); break; }
                default: { ull res=0; bool threw=false; try{ res=b->call<ull>("compute",a,text(a)); } catch(const Pothos::Exception&ex){ threw=true; SIM_CHECK(ex.displayText().find("refused "+std::to_string(a))!=std::string::npos,"C05","wrong exception","call %llx failed with: %s",a,ex.displayText().c_str()); }
                    SIM_CHECK(threw||res==a*3+1,"C05","wrong result","call %llx returned %llx",a,res);
                    sim::count("external calls"); break; } }
                // exactly once: the id was recorded by the time the call returned
                if(r.chance(1,3)) sim::sleep_ns(r.range(1,1500000)); }
            callersLeft--; });
        // moving blocks between pools must not disturb anything
        if(moves) th.emplace_back([&]{ LRng r(77); for(int k=0;k<moves;k++){ sim::sleep_ns(r.range(1,2000000)); auto&b=w.blocks[r.below(nb+1)]; b->setThreadPool(r.chance(1,2)?poolA:poolB); sim::count("pool moves"); } });
        for(auto&t:th) t.join();
        // everything that was emitted is handled, in order, once
        auto expect=[&](int dst,int slot,std::map<int,std::vector<std::pair<int,int>>>&m){ for(auto&c:w.conns) if(c.dst==dst&&c.slot==slot) m[c.src].push_back({c.sig,0}); };
        waitUntil([&]{ 
            sim::NoSched ns;
            for(int d=0;d<=nb;d++) for(int s=0;s<=4;s++){ std::map<int,std::vector<std::pair<int,int>>> m; expect(d,s,m); for(auto&e:m){ size_t want=0; for(auto&x:e.second) want+=w.blocks[e.first]->emittedOn[x.first].size(); size_t have=s==4?rx->infosByEmitter[e.first].size():w.blocks[d]->got[s][e.first].size(); if(have<want) return false; } }
            for(int i=0;i<nb;i++) if(inDesign[i]&&!w.blocks[i]->buffered&&w.blocks[i]->toEmit>0) return false;
            return true; });
        sim::sleep_ns(8000000); // anything delivered twice would show up by now
        sim::quiet(true); topo.disconnectAll(); topo.commit();
        for(int d=0;d<=nb;d++) for(int s=0;s<=4;s++){ std::map<int,std::vector<std::pair<int,int>>> m; expect(d,s,m);
            std::set<int> from; for(auto&e:m) from.insert(e.first); if(s<4) for(auto&e:w.blocks[d]->got[s]) if(!e.second.empty()) from.insert(e.first);
            for(int e:from){ const auto&have=s==4?rx->infosByEmitter[e]:w.blocks[d]->got[s][e]; size_t want=0; std::vector<size_t> pos(4,0); std::vector<bool> on(4,false);
                for(auto&x:m[e]){ want+=w.blocks[e]->emittedOn[x.first].size(); on[x.first]=true; }
                for(ull v:have){ int sig=(int)((v>>32)&0xff); SIM_CHECK(sig<4&&on[sig],"C04","slot called by a signal not connected to it","block %d slot %d got %llx",d,s,v);
                    SIM_CHECK(pos[sig]<w.blocks[e]->emittedOn[sig].size()&&w.blocks[e]->emittedOn[sig][pos[sig]]==v,"C04","slot order","block %d slot %d: emission %llx from block %d arrived as call number %zu of its signal",d,s,v,e,pos[sig]); pos[sig]++; }
                size_t li=0; for(ull v:have){ const auto&lg=w.blocks[e]->log; while(li<lg.size()&&lg[li]!=v) li++; SIM_CHECK(li<lg.size(),"C04","slot order","block %d slot %d: emission %llx of block %d was handled after a later emission of that block",d,s,v,e); li++; }
                SIM_CHECK(have.size()==want,"C04","slot calls lost or repeated","block %d slot %d handled %zu of %zu emissions of block %d",d,s,have.size(),want,e); } }
        sim::count("emissions",[&]{ ull t=0; for(auto&b:w.blocks) t+=b->emitted; return t; }());
    }
    rx.reset(); w.blocks.clear();
}
