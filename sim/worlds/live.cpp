// World "live": a running design is edited, committed (also with failing commits) and torn down while data is in flight.
// Decides C11 (flows that survive a commit lose nothing), C06 (activation life cycle), C12 (failed commits), C13 (teardown).
// Every output numbers its elements and messages, so what arrives at an input is judged without knowing the schedule.
#include "common.hpp"
#include <algorithm>
#include <Pothos/Framework/BlockRegistry.hpp>

namespace {
static std::atomic<long> liveBlocks(0), liveSlabs(0), liveMsgs(0);
struct MsgToken { ull v; MsgToken(ull x=0):v(x){ liveMsgs++; } MsgToken(const MsgToken&o):v(o.v){ liveMsgs++; } ~MsgToken(){ liveMsgs--; } };
enum Kind { SRC, FWD, COPY, SINK };
static const char*const kn[]={"src","fwd","copy","sink"};
struct LCfg { size_t bufElems; int nbuf; bool holdFault; bool copierAvailable, replumb; } lcfg;
struct Track { ull next=0; bool any=false; ull msgNext=0; bool msgAny=false; ull cutoff=~0ull; ull msgCutoff=~0ull; };

struct LBlock : Pothos::Block
{
    Kind kind; int id,nin,nout; LRng rng; Monitor mon; volatile ull produced[2]={0,0}; volatile ull posted[2]={0,0}; volatile ull budget=0; int mgr; int inMgr; size_t maxChunk;
    std::vector<std::map<int,Track>> tr; std::vector<int> allowance; // per input: per originating output what came so far; gaps allowed by new connections
    bool autoPorts=false; std::map<int,int> gaps[2]; bool failNext=false; bool failOff=false; bool failed=false; std::vector<Pothos::BufferChunk> held; std::mutex heldM; ull works=0; bool refuseDomain=false; ull failedAt=0; bool dirtyLabels=false;
    LBlock(Kind k,int i,int in,int out):kind(k),id(i),nin(in),nout(out),rng(sim::rnd()),mon(std::string(kn[k])+std::to_string(i)+"x"),mgr((int)sim::rnd(3)),inMgr(0),tr(in),allowance(in,0)
    {
        liveBlocks++; setName(mon.name); maxChunk=(size_t)rng.range(1,12);
        autoPorts=in+out>1&&(in==0||out==0)&&rng.chance(1,2); // its second port comes and goes with its connections
        for(int p=0;p<in&&!(p&&autoPorts);p++) setupInput(p,Pothos::DType(typeid(ull)),refuse(i)); for(int p=0;p<out&&!(p&&autoPorts);p++) setupOutput(p,Pothos::DType(typeid(ull)));
        registerCall(this,"poke",&LBlock::poke); registerCall(this,"give",&LBlock::give);
    }
    static std::string refuse(int){ return ""; }
    bool hasOut(int p){ return p<(int)outputs().size()&&outputs()[p]; } bool hasIn(int p){ return p<(int)inputs().size()&&inputs()[p]; }
    ~LBlock(){ SIM_CHECK(!mon.inside,"C13 C10","destroyed while running","block %s destroyed while %s runs",mon.name.c_str(),mon.where); sim::hb_write(&mon,"C13","state of a block being destroyed"); liveBlocks--; }
    int poke(){ Monitor::In g(mon,"call"); return id; }
    int give(int n){ Monitor::In g(mon,"call"); budget+=n; return n; }
    Pothos::BufferManager::Sptr mk(){ Pothos::BufferManagerArgs a; a.numBuffers=lcfg.nbuf; a.bufferSize=8*lcfg.bufElems; 
        return Pothos::BufferManager::make("generic",a,[](const Pothos::BufferManagerArgs&q){ size_t n=q.bufferSize*q.numBuffers; liveSlabs++; char*p=new char[n+1]; std::shared_ptr<void> c(p,[p](void*){ liveSlabs--; delete[] p; }); return Pothos::SharedBuffer((size_t)p,n,c); }); }
    Pothos::BufferManager::Sptr getOutputBufferManager(const std::string&,const std::string&) override { if(mgr==0) return Pothos::BufferManager::Sptr(); return mk(); }
    Pothos::BufferManager::Sptr getInputBufferManager(const std::string&n,const std::string&d) override { if(refuseDomain) throw Pothos::PortDomainError(d); if(inMgr==0) return Pothos::BufferManager::Sptr(); (void)n; return mk(); }
    void activate() override { Monitor::In g(mon,"activate"); if(failNext){ failNext=false; failed=true; failedAt=works; if(rng.chance(1,2)) throw std::runtime_error("injected activation failure"); throw Pothos::RuntimeException("activate","injected activation failure"); } mon.onActivate(); failed=false; }
    void deactivate() override { Monitor::In g(mon,"deactivate"); mon.onDeactivate(); if(failOff){ failOff=false; if(rng.chance(1,2)) throw std::runtime_error("injected deactivation failure"); throw Pothos::RuntimeException("deactivate","injected deactivation failure"); } }
    // an element names the output it was first produced on and its number there
    static ull elem(int id,int port,ull k){ return ((ull)(id*2+port)<<40)|k; }
    void post(int p){ ull v=elem(id,p,posted[p]); posted[p]=posted[p]+1; output(p)->postMessage(MsgToken(v)); }
    void work() override
    {
        Monitor::In g(mon,"work"); SIM_CHECK(!failed,"C12 C06","failed block runs","block %s: work() called although its activation failed",mon.name.c_str()); mon.onWork(); works++;
        if(sim::fault(sim::F_CONSUMER_STALL,1,60)) sim::sleep_ns(50000+sim::fault_value(sim::F_CONSUMER_STALL,1500000));
        switch(kind){
        case SRC: { bool more=false; for(int p=0;p<nout;p++){ if(produced[p]>=budget||!hasOut(p)) continue; size_t n=std::min<size_t>(std::min<size_t>(output(p)->elements(),budget-produced[p]),rng.range(1,maxChunk)); emitRun(p,n); if(rng.chance(1,4)) post(p); if(produced[p]<budget) more=true; } if(more) this->yield(); break; }
        case FWD: case COPY: { take(0,true); break; }
        case SINK: for(int p=0;p<nin;p++) if(hasIn(p)) take(p,false); break; }
    }
    void emitRun(int p,size_t n){ if(!n) return; ull*q=output(p)->buffer().as<ull*>(); for(size_t i=0;i<n;i++){ q[i]=elem(id,p,produced[p]+i); sim::hb_write(q+i,"C07 C11 C01","stream buffer contents"); if((produced[p]+i)%7==0) output(p)->postLabel("k",produced[p]+i,i); } output(p)->produce(n); produced[p]=produced[p]+n; }
    void gap(int port,int from,ull want,ull got,const char*what)
    {
        if(lcfg.replumb&&(got<=want||gaps[port&1][from+(what[0]=='m'?1000:0)]>=allowance[port])) sim::violate("C11","bridge inserted into or removed from a connection in use","block %s input %d: %s %llu of output %d arrived where %llu was next",mon.name.c_str(),port,what,got,from,want);
        SIM_CHECK(got>want,"C11 C01","repeated or reordered data","block %s input %d: %s %llu of output %d arrived where %llu was next",mon.name.c_str(),port,what,got,from,want);
        int g=++gaps[port&1][from+(what[0]=='m'?1000:0)]; SIM_CHECK(g<=allowance[port],"C11","data lost on a connection","block %s input %d: %s %llu of output %d arrived where %llu was next (%d gaps, %d reconnections)",mon.name.c_str(),port,what,got,from,want,g,allowance[port]);
        sim::count("gaps at reconnections");
    }
    void propagateLabels(const Pothos::InputPort*in) override { if(kind==FWD) Pothos::Block::propagateLabels(in); }
    void take(int p,bool forward)
    {
        auto in=input(p); 
        while(in->hasMessage()){ auto m=in->popMessage(); ull v=m.extract<MsgToken>().v; int from=(int)(v>>40); ull k=v&((1ull<<40)-1); Track&t=tr[p][from]; if(t.msgAny&&k!=t.msgNext) gap(p,from,t.msgNext,k,"message"); if(!t.msgAny&&!allowance[p]&&k!=0) sim::violate("C11 C03","data lost on a connection","block %s input %d: first message of output %d is number %llu",mon.name.c_str(),p,from,k); SIM_CHECK(k<t.msgCutoff,"C11","data after disconnection","block %s input %d got message %llu of output %d after it was disconnected at %llu",mon.name.c_str(),p,k,from,t.msgCutoff); t.msgAny=true; t.msgNext=k+1; sim::count("messages"); if(forward&&kind==FWD) output(0)->postMessage(m); }
        size_t n=in->elements(); if(!n) return; n=std::min(n,(size_t)rng.range(1,maxChunk*2)); size_t room=0;
        if(forward&&kind==COPY){ room=output(0)->elements(); n=std::min(n,room); if(!n) return; }
        const ull*q=in->buffer().as<const ull*>(); 
        for(size_t i=0;i<n;i++){ sim::hb_read(q+i,"C07 C11 C01","stream buffer contents"); ull v=q[i]; int from=(int)(v>>40); ull k=v&((1ull<<40)-1); Track&t=tr[p][from];
            SIM_CHECK(v>>48==0,"C11 C01","corrupted element","block %s input %d: element %llx",mon.name.c_str(),p,v);
            if(t.any&&k!=t.next) gap(p,from,t.next,k,"element");
            if(!t.any&&!allowance[p]&&k!=0) sim::violate("C11 C01","data lost on a connection","block %s input %d: first element of output %d is number %llu",mon.name.c_str(),p,from,k);
            SIM_CHECK(k<t.cutoff,"C11","data after disconnection","block %s input %d got element %llu of output %d after it was disconnected at %llu",mon.name.c_str(),p,k,from,t.cutoff);
            t.any=true; t.next=k+1; }
        // labels sit on every seventh element
        std::set<size_t> at; for(const auto&l:in->labels()) if(l.index<n){ ull k=q[l.index]&((1ull<<40)-1); SIM_CHECK(l.id=="k"&&l.data.convert<ull>()==k,"C11 C02","misplaced label","block %s input %d: label of element %llu found on element %llu",mon.name.c_str(),p,(ull)l.data.convert<ull>(),k); SIM_CHECK(at.insert(l.index).second,"C11 C02","repeated label","block %s input %d: two labels on element %llu",mon.name.c_str(),p,k); }
        for(size_t i=0;i<n;i++) if((q[i]&((1ull<<40)-1))%7==0) SIM_CHECK(at.count(i),"C11 C02","lost label","block %s input %d: element %llu arrived without its label",mon.name.c_str(),p,q[i]&((1ull<<40)-1));
        sim::count("elements",n);
        if(!forward&&lcfg.holdFault&&rng.chance(1,6)){ auto b=in->buffer(); b.length=n*8; std::lock_guard<std::mutex> l(heldM); if(held.size()<2) held.push_back(b); }
        if(forward&&kind==FWD){ auto b=in->buffer(); b.length=n*8; in->consume(n); output(0)->postBuffer(std::move(b)); }
        else if(forward){ in->consume(n); emitRun(0,n); }
        else in->consume(n);
        
    }
};
typedef std::shared_ptr<LBlock> LP;
struct Edge { int a,o,b,i; int via; std::shared_ptr<Pothos::Topology> sub; bool operator==(const Edge&x)const{ return a==x.a&&o==x.o&&b==x.b&&i==x.i; } };

// the bridge the framework inserts when two ports cannot share buffers
struct Copier : Pothos::Block { Copier(){ liveBlocks++; setupInput(0); setupOutput(0); } ~Copier(){ liveBlocks--; } static Pothos::Block*make(){ if(!lcfg.copierAvailable) throw Pothos::RuntimeException("copier","not available"); return new Copier(); }
    void work() override { auto in=input(0); while(in->hasMessage()) output(0)->postMessage(in->popMessage()); size_t n=std::min(in->elements(),output(0)->elements()); n-=n%8; if(!n) return; memcpy(output(0)->buffer().as<char*>(),in->buffer().as<const char*>(),n); in->consume(n); output(0)->produce(n); sim::count("bridged bytes",n); } };
static Pothos::BlockRegistry registerCopier("/blocks/copier",&Copier::make);
}

SIM_WORLD(live)
{
    using sim::param; sim::set_caps(500000,8000000);
    const bool c12=sim::property_is("C12"), c13=sim::property_is("C13"), c11=sim::property_is("C11"), c06=sim::property_is("C06");
    sim::enable_fault(sim::F_CONSUMER_STALL); sim::enable_fault(sim::F_ACTIVATE_THROW); sim::enable_fault(sim::F_DEACTIVATE_THROW);
    LRng g(sim::rnd());
    const int nsrc=(int)param("sources",1,3), nmid=(int)param("stages",0,3), nsink=(int)param("sinks",1,4), phases=(int)param("phases",1,c13?3:5), edits=(int)param("edits",1,4);
    lcfg.bufElems=(size_t)param("bufElems",2,12); lcfg.nbuf=(int)param("numBuffers",2,4); lcfg.holdFault=param("holdBuffers",0,2)==0; lcfg.copierAvailable=true; lcfg.replumb=false;
    const int failRate=c12?(int)param("failRate",1,4):(int)param("failRate",-6,2); const int bridge=(int)param("bridges",-6,c11?2:1); const int schedCommit=(int)param("schedCommit",0,3); const bool subs=param("nested",0,2)==2;
    const int baseThreads=sim::live_threads();
    { // scope of everything that must be gone at the end
    std::vector<LP> B; std::vector<Edge> E, C; // wanted and committed connections
    for(int i=0;i<nsrc;i++) B.push_back(std::make_shared<LBlock>(SRC,(int)B.size(),0,(int)g.range(1,2)));
    for(int i=0;i<nmid;i++) B.push_back(std::make_shared<LBlock>(g.chance(1,2)?FWD:COPY,(int)B.size(),1,1));
    for(int i=0;i<nsink;i++) B.push_back(std::make_shared<LBlock>(SINK,(int)B.size(),(int)g.range(1,2),0));
    if(bridge>0){ B[B.size()-1]->refuseDomain=true; if(bridge==1) for(auto&b:B) b->mgr=0; else lcfg.replumb=true; } // a bridge in front of the last sink; with custom managers the source's other flows are bridged too
    std::unique_ptr<Pothos::ThreadPool> pool(new Pothos::ThreadPool(pickPoolArgs("threads","yield")));
    std::unique_ptr<Pothos::Topology> topo(new Pothos::Topology()); topo->setThreadPool(*pool);
    sim::set_dump([](void*p){ for(auto&b:*(std::vector<LP>*)p) if(b){ for(int o=0;o<b->nout;o++) sim::note("%s active %d works %llu out %d produced %llu budget %llu posted %llu",b->mon.name.c_str(),b->mon.active,b->works,o,b->produced[o],b->budget,b->posted[o]); for(int i=0;i<b->nin;i++) for(auto&t:b->tr[i]) sim::note("%s active %d in %d from %d next %llu avail %zu",b->mon.name.c_str(),b->mon.active,i,t.first,t.second.next,b->hasIn(i)?b->input(i)->elements():0); } },&B);
    const int nb=(int)B.size(); std::vector<bool> inDesign(nb,false);
    auto bump=[&](int b,int in){ // a connection into this input was made: it and everything that sees its data may miss some, once
        std::vector<std::pair<int,int>> todo(1,std::make_pair(b,in)); std::set<std::pair<int,int>> seen;
        while(!todo.empty()){ auto x=todo.back(); todo.pop_back(); if(!seen.insert(x).second) continue; B[x.first]->allowance[x.second]++; if(B[x.first]->kind==FWD){ for(auto&e:E) if(e.a==x.first) todo.push_back({e.b,e.i}); for(auto&e:C) if(e.a==x.first) todo.push_back({e.b,e.i}); } } };
    auto connect=[&](Edge e){
        BlockPtr s=B[e.a],d=B[e.b]; 
        if(e.via==1){ e.sub=Pothos::Topology::make(); e.sub->connect(e.sub,"in",e.sub,"out"); topo->connect(s,e.o,e.sub,"in"); topo->connect(e.sub,"out",d,e.i); }
        else if(e.via==2){ e.sub=Pothos::Topology::make(); e.sub->connect(e.sub,"in",d,e.i); topo->connect(s,e.o,e.sub,"in"); }
        else if(e.via==3){ e.sub=Pothos::Topology::make(); e.sub->connect(s,e.o,e.sub,"out"); topo->connect(e.sub,"out",d,e.i); }
        else topo->connect(s,e.o,d,e.i);
        E.push_back(e); sim::note("connect %s[%d] -> %s[%d] style %d",B[e.a]->mon.name.c_str(),e.o,B[e.b]->mon.name.c_str(),e.i,e.via); };
    auto disconnect=[&](size_t k,int how){
        Edge e=E[k]; BlockPtr s=B[e.a],d=B[e.b]; try {
        if(e.via==1){ if(how==0){ topo->disconnect(s,e.o,e.sub,"in"); topo->disconnect(e.sub,"out",d,e.i); e.sub->disconnect(e.sub,"in",e.sub,"out"); } else { topo->disconnect(s,e.o,e.sub,"in"); topo->disconnect(e.sub,"out",d,e.i); } }
        else if(e.via==2){ if(how==0){ topo->disconnect(s,e.o,e.sub,"in"); e.sub->disconnect(e.sub,"in",d,e.i); } else { topo->disconnect(s,e.o,e.sub,"in"); e.sub->disconnectAll(); } }
        else if(e.via==3){ if(how==0){ topo->disconnect(e.sub,"out",d,e.i); e.sub->disconnect(s,e.o,e.sub,"out"); } else { topo->disconnect(e.sub,"out",d,e.i); e.sub->disconnectAll(); } }
        else topo->disconnect(s,e.o,d,e.i);
        } catch(const Pothos::Exception&ex){ sim::violate("C11","cannot disconnect","removing an existing connection (style %d/%d) failed: %s",e.via,how,ex.displayText().c_str()); }
        sim::note("disconnect %s[%d] -> %s[%d]",B[e.a]->mon.name.c_str(),e.o,B[e.b]->mon.name.c_str(),e.i); E.erase(E.begin()+k); };
    // each output reaches an input along one path only, ever: otherwise leftovers of the old path could legitimately arrive out of order
    std::map<std::pair<int,std::pair<int,int>>,std::pair<int,int>> route;
    auto routable=[&](const std::vector<Edge>&es,bool record){
        std::map<std::pair<int,int>,std::map<int,std::pair<int,int>>> reach; // input -> origin -> upstream
        for(int b=0;b<nb;b++) for(int i=0;i<B[b]->nin;i++) for(auto&e:es) if(e.b==b&&e.i==i){ std::vector<int> org; if(B[e.a]->kind==FWD){ for(auto&o:reach[std::make_pair(e.a,0)]) org.push_back(o.first); } else org.push_back(e.a*2+e.o);
            for(int o:org){ auto&r=reach[std::make_pair(b,i)]; if(r.count(o)) return false; auto key=std::make_pair(o,std::make_pair(b,i)); auto up=std::make_pair(e.a,e.o); auto it=route.find(key); if(it!=route.end()&&it->second!=up) return false; r[o]=up; if(record) route[key]=up; } }
        return true; };
    auto want=[&](int b){ for(auto&e:E) if(e.a==b||e.b==b) return true; return false; };
    auto pick=[&](Edge&e){ for(int t=0;t<20;t++){ e.a=(int)g.below(nb); e.b=(int)g.below(nb); if(e.a>=e.b||!B[e.a]->nout||!B[e.b]->nin) continue; e.o=(int)g.below(B[e.a]->nout); e.i=(int)g.below(B[e.b]->nin); 
        if(B[e.a]->failed||B[e.b]->failed) continue; // a failed block is repaired first
        bool dup=false; for(auto&x:E) if(x==e) dup=true; if(dup) continue; { std::vector<Edge> es=E; es.push_back(e); if(!routable(es,false)) continue; routable(es,true); } e.via=subs?(int)g.below(5):0; if(e.via==3&&want(e.a)) e.via=1; 
        return true; } return false; };
    bool everCommitted=false;
    auto commit=[&](bool inject){
        // who joins, who leaves
        std::vector<int> joins,leaves; for(int b=0;b<nb;b++){ bool w=want(b); if(w&&!inDesign[b]) joins.push_back(b); if(!w&&inDesign[b]) leaves.push_back(b); if(w) B[b]->mon.forbidden=false; }
        for(auto&e:E){ bool was=false; for(auto&c:C) if(c==e) was=true; if(!was&&everCommitted) bump(e.b,e.i); } everCommitted=true;
        std::vector<int> fails; if(inject) for(int b:joins) if(failRate>0&&sim::fault(sim::F_ACTIVATE_THROW,failRate,8)){ B[b]->failNext=true; fails.push_back(b); }
        std::vector<int> offs; if(inject) for(int b:leaves) if(failRate>0&&!B[b]->failed&&sim::fault(sim::F_DEACTIVATE_THROW,failRate,8)){ B[b]->failOff=true; offs.push_back(b); }
        // cutoffs: from the moment the commit returned, a removed connection delivers nothing new
        std::vector<Edge> gone; for(auto&c:C){ bool still=false; for(auto&e:E) if(c==e) still=true; if(!still) gone.push_back(c); }
        // tracks of inputs that regain a connection are open again
        { sim::NoSched ns; for(auto&b:B) for(auto&m:b->tr) for(auto&t:m){ t.second.cutoff=~0ull; t.second.msgCutoff=~0ull; } }
        if(schedCommit!=0||(bridge>1&&g.chance(3,4))) sim::quiet(true);
        std::string err; bool threw=false; try{ topo->commit(); } catch(const Pothos::Exception&ex){ threw=true; err=ex.displayText(); }
        sim::quiet(false); sim::count("commits"); sim::note("commit %s %s",threw?"failed":"done",err.c_str());
        for(int b:offs){ SIM_CHECK(threw,"C12","failed deactivation not reported","commit returned normally although the deactivation of %s failed",B[b]->mon.name.c_str()); SIM_CHECK(err.find(B[b]->mon.name)!=std::string::npos,"C12","failed block not named","commit error does not name %s: %s",B[b]->mon.name.c_str(),err.c_str()); sim::count("failed deactivations"); }
        if(fails.empty()&&offs.empty()) SIM_CHECK(!threw,"C12 C06 C11 C13","commit failed","commit of a valid design failed: %s",err.c_str());
        else if(!fails.empty()){ SIM_CHECK(threw,"C12","failed activation not reported","commit returned normally although %s refused activation",B[fails[0]]->mon.name.c_str()); for(int b:fails) SIM_CHECK(err.find(B[b]->mon.name)!=std::string::npos,"C12","failed block not named","commit error does not name %s: %s",B[b]->mon.name.c_str(),err.c_str()); sim::count("failed commits"); }
        for(int b:joins){ inDesign[b]=true; bool f=std::find(fails.begin(),fails.end(),b)!=fails.end(); SIM_CHECK(f||B[b]->mon.active,"C06 C12","not activated","block %s is part of the committed design but was not activated",B[b]->mon.name.c_str()); SIM_CHECK(!f||!B[b]->mon.active,"C12","failed block active","block %s refused activation but is active",B[b]->mon.name.c_str()); SIM_CHECK(B[b]->isActive()==!f,"C06 C12","wrong active state","block %s isActive() is %d after %s activation",B[b]->mon.name.c_str(),(int)B[b]->isActive(),f?"failed":"successful"); }
        for(int b:leaves){ inDesign[b]=false; SIM_CHECK(!B[b]->mon.active,"C06","not deactivated","block %s was removed from the design but not deactivated",B[b]->mon.name.c_str()); B[b]->mon.forbidden=true; B[b]->failed=false; }
        C=E;
        // what upstream has produced when the commit returns is the last that may still arrive over a removed connection
        for(auto&e:gone){ if(B[e.a]->kind==FWD) continue; sim::NoSched ns; auto&t=B[e.b]->tr[e.i][e.a*2+e.o]; t.cutoff=B[e.a]->produced[e.o]; t.msgCutoff=B[e.a]->posted[e.o]; }
        };
    // a burst over the committed design: every connection must deliver all of it
    auto drain=[&]{
        lcfg.holdFault=false; for(auto&b:B){ std::lock_guard<std::mutex> l(b->heldM); b->held.clear(); }
        std::map<std::pair<int,int>,ull> fm; { sim::NoSched ns; for(auto&b:B) if(b->kind==FWD) for(auto&t:b->tr[0]) fm[{b->id,t.first}]=t.second.next; } auto fmark=[&](LBlock*b,int o){ auto it=fm.find({b->id,o}); return it==fm.end()?0ull:it->second; };
        std::vector<ull> mark; { sim::NoSched ns; for(auto&e:C) mark.push_back((ull)B[e.a]->produced[e.o]); }
        for(auto&b:B) if(b->kind==SRC&&inDesign[b->id]&&b->mon.active) b->call("give",(int)g.range(1,30));
        waitUntil([&]{ for(auto&b:B){ std::lock_guard<std::mutex> l(b->heldM); b->held.clear(); } sim::NoSched ns; for(auto&b:B) if(b->kind==SRC&&inDesign[b->id]&&b->mon.active) for(int p=0;p<b->nout;p++) if(b->hasOut(p)&&b->produced[p]<b->budget) return false;
            for(size_t k=0;k<C.size();k++){ auto&e=C[k]; auto&a=B[e.a]; if(!a->mon.active||!B[e.b]->mon.active) continue;
                if(a->kind!=FWD){ if(a->produced[e.o]>mark[k]&&B[e.b]->tr[e.i][e.a*2+e.o].next<a->produced[e.o]) return false; }
                else for(auto&o:route) if(o.first.second==std::make_pair(e.b,e.i)&&o.second==std::make_pair(e.a,e.o)){ int on=o.first.first; // origin arriving through this forwarder: compare with what the forwarder itself saw
                    auto&ft=a->tr[0][on]; auto&t=B[e.b]->tr[e.i][on]; if(ft.any&&ft.next>fmark(a.get(),on)&&t.next<ft.next) return false; } }
            return true; });
        };
    { Edge e; int n=(int)g.range(1,(uint64_t)nb); for(int k=0;k<n;k++) if(pick(e)) connect(e); }
    for(int ph=0;ph<phases;ph++){
        commit(true);
        for(auto&b:B) if(b->kind==SRC&&g.chance(4,5)){ bool f=b->mon.forbidden; if(f) continue; b->call("give",(int)g.range(1,40)); }
        if(g.chance(2,3)) sim::sleep_ns(g.range(1,3000000));
        // failed blocks: take their connections out (and in again later)
        for(int b=0;b<nb;b++) if(B[b]->failed){ for(size_t k=E.size();k-->0;) if(E[k].a==b||E[k].b==b) disconnect(k,(int)g.below(2)); }
        { bool repair=false; for(int b=0;b<nb;b++) if(B[b]->failed) repair=true; if(repair){ commit(false); sim::count("repairs"); } }
        for(int k=0;k<edits&&ph+1<phases;k++){ Edge e; if(E.empty()||g.chance(1,2)){ if(pick(e)) connect(e); } else disconnect(g.below(E.size()),(int)g.below(2)); }
        if(g.chance(1,4)&&E.size()>1&&ph+1<phases){ std::vector<Edge> old=E; topo->disconnectAll(); for(auto&e:E) if(e.sub) e.sub->disconnectAll(); E.clear(); for(auto e:old) if(g.chance(4,5)){ e.via=0; e.sub.reset(); connect(e); } } // rebuild: unchanged pairs must not notice
        if(g.chance(1,5)){ const bool h=lcfg.holdFault; sim::note("drain before commit"); drain(); lcfg.holdFault=h; sim::count("drained with uncommitted edits"); } // edits have no effect before they are committed
    }
    if(!c13||g.chance(1,2)){
        commit(false); for(auto&b:B) if(!b->mon.forbidden&&inDesign[b->id]) b->call("poke");
        drain();
        sim::count("drained"); sim::note("drained");
    }
    const int order=(int)param("teardown",0,5); sim::note("teardown %d",order);
    // ---- teardown in some legal order while things still run
    std::vector<Pothos::BufferChunk> kept; for(auto&b:B){ std::lock_guard<std::mutex> l(b->heldM); for(auto&h:b->held) kept.push_back(h); b->held.clear(); }
    for(auto&b:B) if(b->kind==SRC&&!b->mon.forbidden&&inDesign[b->id]&&g.chance(1,2)) b->call("give",(int)g.range(1,60));
    if(schedCommit!=0&&!c13) sim::quiet(true);
    for(auto&b:B) b->mon.forbidden=false;
    E.clear(); const bool implicit=order<2; if(implicit&&failRate>0) for(auto&b:B) if(b->mon.active&&sim::fault(sim::F_DEACTIVATE_THROW,failRate,8)) b->failOff=true;
    std::vector<Edge> subsAlive; if(g.chance(1,2)) subsAlive=C; C.clear();
    std::vector<std::thread> helpers; std::vector<LP> drop; std::atomic<bool> go(false);
    if(!kept.empty()) helpers.emplace_back([&]{ for(auto&k:kept){ if(sim::fault(sim::F_LATE_RELEASE,1,2)) sim::sleep_ns(sim::fault_value(sim::F_LATE_RELEASE,3000000)); k=Pothos::BufferChunk(); } });
    switch(order){
    case 0: topo.reset(); pool.reset(); B.clear(); break;
    case 1: B.clear(); topo.reset(); pool.reset(); break;             // the design holds the last references
    case 2: pool.reset(); topo->disconnectAll(); topo->commit(); while(!B.empty()) B.erase(B.begin()+g.below(B.size())); topo.reset(); break;
    case 3: topo->disconnectAll(true); topo->commit(); for(auto&b:B) if(g.chance(1,2)) b.reset(); topo.reset(); B.clear(); pool.reset(); break;
    case 4: { // blocks destroyed by several threads
        topo->disconnectAll(); topo->commit(); std::vector<LP> half; for(auto&b:B) if(g.chance(1,2)){ half.push_back(std::move(b)); b.reset(); } helpers.emplace_back([half]()mutable{ for(auto&b:half) b.reset(); }); B.clear(); topo.reset(); pool.reset(); break; }
    default: { // remove some blocks while the rest keeps running, then everything
        std::vector<LP> keep; topo->disconnectAll(); topo->commit(); for(size_t i=0;i<B.size();i+=2){ B[i].reset(); sim::sleep_ns(g.range(1,500000)); } pool.reset(); topo.reset(); B.clear(); break; } }
    for(auto&t:helpers) t.join(); kept.clear(); subsAlive.clear();
    }
    sim::quiet(true);
    SIM_CHECK(liveBlocks==0,"C13","block not released","%ld blocks still exist after everything was destroyed",liveBlocks.load());
    SIM_CHECK(liveMsgs==0,"C13","message not released","%ld messages still exist after everything was destroyed",liveMsgs.load());
    SIM_CHECK(liveSlabs==0,"C13","buffer not released","%ld buffer slabs still exist after everything was destroyed",liveSlabs.load());
    SIM_CHECK(sim::live_threads()==baseThreads,"C13","thread not released","%d threads still run after everything was destroyed",sim::live_threads()-baseThreads);
    (void)c11; (void)c06;
}
