// World "flow": random acyclic graphs of streaming blocks, run to completion.
// Every stage is a deterministic stream function, so the exact element, label and message sequence at every sink is known.
// Decides C01 (elements), C02 (labels), C03 (messages), C07 (buffer ownership), C08 (drain), C05/C06 monitors, C28 (statistics).
#include "common.hpp"
#include <nlohmann/json.hpp>
using json=nlohmann::json;

namespace {
struct ELabel { ull at; int id; };
struct Edge { std::vector<ull> v; std::vector<ELabel> lab; int nmsg=0; int msgSrc=-1; };

// a partial buffer that waits for its reserve keeps its place in the manager's order: dropping output space instead of filling it could
// then legitimately exhaust the source, so such designs do not use popElements()
struct Cfg { bool anyReserve, anyWait; // anyWait: some stage waits for more input while it holds some
     bool big; int nbuf; size_t bufBytes; int mgr; int hold; } cfg;

enum Kind { SRC, COPY, ZERO, RBW, GETB, SLICE, RAW, WINDOW, EXPAND, DECIM, MUX, SINK, NKIND };
static const char*const kindName[]={"src","copy","zero","rbw","getb","slice","raw","window","expand","decim","mux","sink"};

struct Held { Pothos::BufferChunk b; std::vector<ull> v; };
struct Node;
struct MsgRx { ull popped=0; };

struct NodeBlock : Pothos::Block
{
    Kind kind; int id; LRng rng; Monitor mon; Edge *in0=nullptr,*in1=nullptr,*out=nullptr; size_t reserve=0; size_t maxChunk=64; int outMgr=0;
    ull produced=0, consumed0=0, consumed1=0; size_t nextLabel=0; ull posted=0; std::vector<ull> rxMsgs; std::set<int> sameSpot; bool rawSink=false;
    std::vector<NodeBlock*> receivers; ull maxAhead=0; std::vector<Held> held; std::mutex heldMutex; bool holding=false; ull labelsSeen=0; ull works=0; bool yields=false; ull consumedTotal=0;
    size_t window=0; bool strips=false, greedy=false; ull rawDone=0; std::set<uintptr_t> seenBufs; NodeBlock*directSrc=nullptr; std::set<ull> packetMode;

    NodeBlock(Kind k,int i):kind(k),id(i),rng(sim::rnd()),mon(std::string(kindName[k])+std::to_string(i))
    {
        setName(mon.name);
        if(k!=SRC){ if(k==SINK&&sim::param("rawsink",0,3)==0){ rawSink=true; setupInput(0); } else if(k==RAW) setupInput(0); else setupInput(0,Pothos::DType(typeid(ull))); }
        if(k==MUX) setupInput(1,Pothos::DType(typeid(ull)));
        if(k==RAW) setupOutput(0); else if(k!=SINK) setupOutput(0,Pothos::DType(typeid(ull)));
        if(k==RBW) output(0)->setReadBeforeWrite(input(0));
        maxChunk=(size_t)(cfg.big?rng.range(20,2500):rng.range(1,40)); yields=rng.chance(1,3); strips=rng.chance(1,4); greedy=rng.chance(1,3); asks=rng.chance(1,3);
    }
    void activate() override { Monitor::In g(mon,"activate"); mon.onActivate(); if(reserve) input(0)->setReserve(reserve); if(kind==DECIM) input(0)->setReserve(2); if(window) input(0)->setReserve(window); if(rawSink) input(0)->setReserve(8); if(outReserve) output(0)->setReserve(outReserve); }
    size_t outReserve=0; int patience=0,waits=0;
    void deactivate() override { Monitor::In g(mon,"deactivate"); mon.onDeactivate(); }
    Pothos::BufferManager::Sptr getOutputBufferManager(const std::string &,const std::string &) override
    {
        if(outMgr==0) return Pothos::BufferManager::Sptr();
        Pothos::BufferManagerArgs a; a.numBuffers=cfg.nbuf; a.bufferSize=cfg.bufBytes;
        return Pothos::BufferManager::make(outMgr==1?"generic":"circular",a);
    }
    void propagateLabels(const Pothos::InputPort*p) override
    {
        if(kind==SINK) return;
        if(kind==MUX&&p->index()==1) return;
        for(const auto&l:p->labels()){ Pothos::Label n(l); if(kind==EXPAND||kind==MUX) n.index*=2; else if(kind==DECIM) n.index/=2; output(0)->postLabel(n); }
    }
    // A forwarded chunk keeps every buffer it was amalgamated from; a stage that waits while holding such a chunk could legitimately
    // pin all of the source's buffers, so designs with waiting stages forward one buffer at a time.
    size_t ownElems(size_t have){ if(!cfg.anyWait) return have; const auto&b=input(0)->buffer(); size_t end=b.getBuffer().getEnd(); if(b.address>=end) return have; return std::min(have,std::max<size_t>(1,(end-b.address)/sizeof(ull))); }
    static ull bump(ull v){ return v+(1ull<<56); }
    static bool sampled(const void*p){ return !cfg.big||((uintptr_t)p>>3)%61==0; }
    void wr(ull*p,ull v){ *p=v; if(sampled(p)) sim::hb_write(p,"C07 C01","stream buffer contents"); }
    ull rd(const ull*p){ if(sampled(p)) sim::hb_read(p,"C07 C01","stream buffer contents"); return *p; }
    void pumpMessages(int port,bool forward)
    {
        auto in=input(port); int n=0;
        while(in->hasMessage()&&n++<3){
            if(rng.chance(1,6)) { auto pk=in->peekMessage(); (void)pk; }
            Pothos::Object m=in->popMessage();
            SIM_CHECK(bool(m),"C03","message vanished","block %s: popMessage returned nothing although hasMessage was true",mon.name.c_str());
            ull val=decode(m);
            Edge*e=port==0?in0:in1; auto&rx=port==0?rxMsgs:rxMsgs1;
            SIM_CHECK(rx.size()<(size_t)e->nmsg,"C03","extra message","block %s port %d got more messages (%zu) than were posted",mon.name.c_str(),port,rx.size()+1);
            SIM_CHECK(val==((ull)e->msgSrc<<32|rx.size()),"C03","message order","block %s port %d: message %llx arrived where %llx was expected",mon.name.c_str(),port,val,((ull)e->msgSrc<<32|rx.size()));
            rx.push_back(val); if(port==0) rxN=rxN+1; else rxN1=rxN1+1;
            if(forward) post(val);
        }
    }
    std::vector<ull> rxMsgs1; volatile ull rxN=0, rxN1=0;
    ull decode(const Pothos::Object&m)
    {
        if(m.type()==typeid(Pothos::Packet)){
            const auto&p=m.extract<Pothos::Packet>(); ull v=p.metadata.at("id").convert<ull>();
            SIM_CHECK(p.payload.length==3*sizeof(ull),"C03","packet payload","packet %llx arrived with %zu payload bytes",v,p.payload.length);
            for(int i=0;i<3;i++) SIM_CHECK(p.payload.as<const ull*>()[i]==v*3+i,"C03","packet payload","packet %llx arrived with a modified payload",v);
            SIM_CHECK(p.labels.size()==1&&p.labels[0].id=="P"&&p.labels[0].index==1,"C03","packet labels","packet %llx arrived without its label",v);
            return v; }
        return m.extract<ull>();
    }
    void post(ull val)
    {
        if((val&7)==3){ Pothos::Packet p; p.payload=Pothos::BufferChunk(Pothos::DType(typeid(ull)),3); for(int i=0;i<3;i++) p.payload.as<ull*>()[i]=val*3+i; p.metadata["id"]=Pothos::Object(val); p.labels.emplace_back("P",1,1); output(0)->postMessage(p); }
        else output(0)->postMessage(val);
        posted++;
        for(auto r:receivers){ ull got=r->rxFrom(this); SIM_CHECK(posted-got<=64,"C03","message back-pressure","block %s is %llu messages ahead of block %s",mon.name.c_str(),posted-got,r->mon.name.c_str()); if(posted-got>maxAhead) maxAhead=posted-got; }
    }
    ull rxFrom(NodeBlock*s){ return kind==SINK||s->out==in0?rxN:rxN1; }

    void work() override
    {
        Monitor::In g(mon,"work"); mon.onWork(); works++; workPosted=0;
        if(sim::fault(sim::F_CONSUMER_STALL,1,40)) sim::sleep_ns(100000+sim::fault_value(sim::F_CONSUMER_STALL,3000000));
        if(sim::fault(sim::F_WORK_THROW,1,60)) { this->yield(); throw std::runtime_error("injected work failure"); }
        switch(kind){
        case SRC: workSrc(); break;
        case SINK: workSink(); break;
        default: workMid(); break;
        }
        if(yields&&rng.chance(1,4)) this->yield();
    }
    void workSrc()
    {
        // messages interleave with the stream
        for(int k=0;k<3&&posted<(ull)out->nmsg;k++){ if(!rng.chance(2,3)) break; post((ull)id<<32|posted); }
        size_t room=output(0)->elements(), left=out->v.size()-produced; size_t n=std::min(std::min(room,left),greedy&&rng.chance(3,4)?room:(size_t)rng.range(1,maxChunk));
        if(n==0){ if(posted<(ull)out->nmsg) this->yield(); return; }
        int how=rng.below(8);
        if(how==0){ // several posted buffers
            size_t a=n/2,b=n-a; if(a) postOwn(a); postOwn(b); }
        else if(how==2&&asks){ // a burst of many small buffers: longer than the queues' first capacity
            size_t k=(size_t)rng.range(1,100); for(size_t i=0;i<k&&produced<out->v.size();i++) postOwn(std::min<size_t>(out->v.size()-produced,(size_t)rng.range(1,2))); sim::count("bursts of buffers"); }
        else if(how==1&&!cfg.anyReserve){ output(0)->popElements(1); this->yield(); } // drop some of the output space
        else { ull*p=output(0)->buffer().as<ull*>(); for(size_t i=0;i<n;i++) wr(p+i,out->v[produced+i]); labelRange(n,0); output(0)->produce(n); produced+=n; }
        if(produced<out->v.size()||posted<(ull)out->nmsg) this->yield();
    }
    void labelRange(size_t n,size_t base){ std::vector<std::pair<ull,int>> mine; for(auto&l:out->lab) if(l.at>=produced&&l.at<produced+n) mine.push_back({l.at-produced,l.id});
        if(mine.size()>1&&rng.chance(1,2)) std::swap(mine[0],mine[mine.size()-1]);
        for(auto&m:mine) output(0)->postLabel("L"+std::to_string(m.second),m.second*7+1,m.first+base); }
    size_t ownBase=0;
    // a buffer for n elements, sometimes cut from a request that is larger than the pool's buffers so far
    Pothos::BufferChunk take(size_t n)
    {
        size_t ask=asks&&rng.chance(1,4)?n+(size_t)rng.range(0,3000):n; bool pooled=output(0)->buffer().length<ask*sizeof(ull);
        Pothos::BufferChunk b=output(0)->getBuffer(ask); const auto&sb=b.getBuffer(); if(pooled) sim::count("buffers from the port's own pool");
        SIM_CHECK(b.length==ask*sizeof(ull),"C01 C07","buffer too small","block %s asked for %zu elements and got %zu bytes",mon.name.c_str(),ask,b.length);
        SIM_CHECK(!pooled||(b.address>=sb.getAddress()&&b.address+b.length<=sb.getEnd()),"C01 C07","buffer too small","block %s asked for %zu elements and got a chunk that is larger than its buffer of %zu bytes",mon.name.c_str(),ask,sb.getLength());
        b.length=n*sizeof(ull); return b;
    }
    void postOwn(size_t n)
    {
        // labels are relative to the first element of this work call's output
        Pothos::BufferChunk b=take(n); for(size_t i=0;i<n;i++) wr(b.as<ull*>()+i,out->v[produced+i]);
        size_t base=workPosted; labelRange(n,base); output(0)->postBuffer(b); produced+=n; workPosted+=n;
        if(true) {}
    }
    size_t workPosted=0, windowMax=0; bool asks=false;
    // takes the labels of the first n elements off the input and posts them itself: nothing is left for propagateLabels()
    void strip(size_t n){ if(!strips) return; std::vector<Pothos::Label> mine; for(const auto&l:input(0)->labels()) if(l.index<n&&rng.chance(2,3)) mine.push_back(l);
        if(rng.chance(1,2)) std::reverse(mine.begin(),mine.end());
        for(auto&l:mine){ size_t before=std::distance(input(0)->labels().begin(),input(0)->labels().end()); input(0)->removeLabel(l); size_t after=std::distance(input(0)->labels().begin(),input(0)->labels().end());
            SIM_CHECK(after+1==before,"C02","label not removed","block %s: removeLabel() changed the number of labels from %zu to %zu",mon.name.c_str(),before,after);
            for(const auto&x:input(0)->labels()) SIM_CHECK(x.id!=l.id,"C02","wrong label removed","block %s: label %s is still there after removeLabel()",mon.name.c_str(),l.id.c_str());
            output(0)->postLabel(l); sim::count("labels removed by hand"); } }
    void workMid()
    {
        auto in=input(0); auto o=output(0);
        pumpMessages(0,true); if(kind==MUX) pumpMessages(1,false);
        size_t have=in->elements(); size_t room=o->elements();
        if(have==0) return;
        const ull*p=in->buffer().as<const ull*>();
        switch(kind){
        case COPY: { size_t n=std::min(have,room); if(reserve){ n-=n%reserve; if(n>reserve&&rng.chance(1,3)) n=reserve; if(n==0) return; } else n=std::min(n,(size_t)rng.range(1,maxChunk));
            if(!in1&&!reserve&&rng.chance(1,10)) return skip(); 
            ull*q=o->buffer().as<ull*>(); for(size_t i=0;i<n;i++) wr(q+i,bump(rd(p+i))); strip(n); in->consume(n); o->produce(n); break; }
        // works on bytes: elements may be cut anywhere
        case RAW: { size_t n=std::min(std::min(have,room),(size_t)rng.range(1,maxChunk*8)); if(greedy) n-=n>8?n%8:0; char*q=o->buffer().as<char*>(); memcpy(q,in->buffer().as<const char*>(),n); for(size_t i=0;i<n;i++) if(sampled(q+i)) sim::hb_write(q+i,"C07 C01","stream buffer contents"); in->consume(n); o->produce(n); break; }
        // looks at a window of elements but consumes only some of them
        case WINDOW: { size_t left=in0->v.size()-consumedTotal, w=std::min(window,left); if(have<w) return; size_t n=std::min(std::min(have,room),(size_t)rng.range(1,w)); if(n==0) return; ull*q=o->buffer().as<ull*>();
            for(size_t i=0;i<w;i++){ ull v=rd(p+i); SIM_CHECK(v==in0->v[consumedTotal+i],"C01","wrong element","block %s element %llu is %llx, expected %llx",mon.name.c_str(),consumedTotal+i,v,in0->v[consumedTotal+i]); }
            for(size_t i=0;i<n;i++) wr(q+i,bump(rd(p+i))); strip(n); in->consume(n); o->produce(n); consumedTotal+=n; left-=n;
            if(left<window) in->setReserve(left); else if(rng.chance(1,4)){ window=(size_t)rng.range(1,windowMax); in->setReserve(std::min(window,left)); } break; }
        case RBW: { size_t n=std::min(std::min(have,room),(size_t)rng.range(1,maxChunk)); ull*q=o->buffer().as<ull*>();
            if((const ull*)q==p) sim::count("in-place buffers"); for(size_t i=0;i<n;i++){ ull v=rd(p+i); wr(q+i,bump(v)); } in->consume(n); o->produce(n); break; }
        case ZERO: { Pothos::BufferChunk b=in->buffer(); size_t n=ownElems(have); if(rng.chance(1,2)){ n=(size_t)rng.range(1,n); } b.length=n*sizeof(ull); if(rng.chance(1,2)){ in->takeBuffer(); } in->consume(n); o->postBuffer(std::move(b)); break; }
        case GETB: { size_t n=std::min(have,(size_t)rng.range(1,maxChunk*2)); Pothos::BufferChunk b=take(n); for(size_t i=0;i<n;i++) wr(b.as<ull*>()+i,bump(rd(p+i))); strip(n); in->consume(n); o->postBuffer(b); break; }
        case SLICE: { size_t n=ownElems(have), a=(size_t)rng.range(0,n); Pothos::BufferChunk b1=in->buffer(), b2=in->buffer(); b1.length=a*sizeof(ull); b2.address+=a*sizeof(ull); b2.length=(n-a)*sizeof(ull);
            in->consume(n); if(a) o->postBuffer(b1); if(n-a) o->postBuffer(b2); break; }
        case EXPAND: { size_t n=std::min(std::min(have,room/2),maxChunk); if(n==0){ if(have&&room<2) o->popElements(room); return; } ull*q=o->buffer().as<ull*>(); for(size_t i=0;i<n;i++){ ull v=rd(p+i); wr(q+2*i,v); wr(q+2*i+1,v); } in->consume(n); o->produce(2*n); break; }
        case DECIM: { size_t n=std::min(std::min(have/2,room),maxChunk); if(n==0) return; ull*q=o->buffer().as<ull*>(); for(size_t i=0;i<n;i++) wr(q+i,rd(p+2*i)); in->consume(2*n); o->produce(n); break; }
        case MUX: { auto ib=input(1); const ull*p1=ib->buffer().as<const ull*>(); size_t n=std::min(std::min(have,ib->elements()),std::min(room/2,maxChunk)); if(n==0){ if(room<2) o->popElements(room); return; }
            ull*q=o->buffer().as<ull*>(); for(size_t i=0;i<n;i++){ wr(q+2*i,rd(p+i)); wr(q+2*i+1,rd(p1+i)); } in->consume(n); ib->consume(n); o->produce(2*n); break; }
        default: break;
        }
    }
    void skip(){ this->yield(); } // do nothing this time, but ask to be called again
    void workSink()
    {
        auto in=input(0); pumpMessages(0,false);
        size_t esz=rawSink?1:8; size_t have=in->elements()*esz/8; if(have==0) return;
        if(patience>0&&have<in0->v.size()-consumedTotal&&have*8<cfg.bufBytes*(size_t)(cfg.nbuf-1)&&cfg.nbuf>1&&waits<patience){ waits++; sim::sleep_ns(60000); this->yield(); return; } waits=0; // lets its input pile up
        size_t n=std::min(have,greedy||patience?have:(size_t)rng.range(1,maxChunk)); if(reserve&&!rawSink) { n=have-have%reserve; if(n==0) return; }
        const ull*p=in->buffer().as<const ull*>();
        SIM_CHECK(consumedTotal+n<=in0->v.size(),"C01","extra elements","sink %s received %llu elements, only %zu were produced",mon.name.c_str(),consumedTotal+n,in0->v.size());
        for(size_t i=0;i<n;i++){ ull v=rd(p+i); SIM_CHECK(v==in0->v[consumedTotal+i],"C01 C11","wrong element","sink %s element %llu is %llx, expected %llx",mon.name.c_str(),consumedTotal+i,v,in0->v[consumedTotal+i]); }
        for(const auto&l:in->labels()){
            ull at=l.index/( rawSink?8:1 ); if(at>=n) continue;
            SIM_CHECK(!rawSink||l.index%8==0,"C02","label scaling","sink %s: label %s at byte offset %llu",mon.name.c_str(),l.id.c_str(),(ull)l.index);
            ull abs=consumedTotal+at; bool ok=false; 
            SIM_CHECK(nextLabel<in0->lab.size(),"C02","extra label","sink %s: unexpected label %s at element %llu",mon.name.c_str(),l.id.c_str(),abs);
            for(size_t k=nextLabel;k<in0->lab.size()&&in0->lab[k].at==in0->lab[nextLabel].at;k++) if("L"+std::to_string(in0->lab[k].id)==l.id&&in0->lab[k].at==abs&&l.data.convert<int>()==in0->lab[k].id*7+1){ std::swap(in0labels()[k],in0labels()[nextLabel]); ok=true; break; }
            SIM_CHECK(ok,"C02","misplaced label","sink %s: label %s seen at element %llu, expected L%d at element %llu",mon.name.c_str(),l.id.c_str(),abs,in0labels()[nextLabel].id,in0labels()[nextLabel].at);
            nextLabel++; labelsSeen++;
        }
        while(nextLabel<in0->lab.size()&&in0labels()[nextLabel].at<consumedTotal+n) sim::violate("C02","lost label","sink %s: label L%d on element %llu never arrived",mon.name.c_str(),in0labels()[nextLabel].id,in0labels()[nextLabel].at);
        if(holding&&rng.chance(1,2)){
            Held h; h.b=in->buffer(); h.b.length=n*sizeof(ull); h.v.assign(in0->v.begin()+consumedTotal,in0->v.begin()+consumedTotal+n);
            std::lock_guard<std::mutex> l(heldMutex); held.push_back(std::move(h)); sim::count("buffers held late"); }
        in->consume(n*8/esz); consumedTotal+=n;
    }
    std::vector<ELabel> myLab; bool labCopied=false;
    std::vector<ELabel>& in0labels(){ return in0->lab; } // each sink has its own copy of its edge
    void releaseOne(LRng&r)
    {
        Held h; { std::lock_guard<std::mutex> l(heldMutex); if(held.empty()) return; size_t i=r.below(held.size()); h=std::move(held[i]); held.erase(held.begin()+i); }
        const ull*p=h.b.as<const ull*>(); for(size_t i=0;i<h.v.size(); i++){ sim::hb_read(p+i,"C07","held buffer contents"); SIM_CHECK(p[i]==h.v[i],"C07","held buffer overwritten","sink %s: element %zu of a held buffer changed from %llx to %llx",mon.name.c_str(),i,h.v[i],p[i]); }
        if(sim::fault(sim::F_LATE_RELEASE,1,4)) sim::sleep_ns(100000+sim::fault_value(sim::F_LATE_RELEASE,4000000));
        h.b=Pothos::BufferChunk();
    }
};
}

SIM_WORLD(flow)
{
    using sim::param;
    sim::set_caps(400000,3000000); sim::kern::enable(true);
    if(sim::property_is("C28")||sim::property_is("C08")) sim::enable_fault(sim::F_CLOCK_JUMP); sim::enable_fault(sim::F_CONSUMER_STALL); sim::enable_fault(sim::F_LATE_RELEASE); sim::enable_fault(sim::F_WORK_THROW);
    const bool focusLab=sim::property_is("C02"), focusMsg=sim::property_is("C03"), focusBuf=sim::property_is("C07"), focusStats=sim::property_is("C28");
    const int nsrc=(int)param("sources",1,3), nmid=(int)param("stages",0,5), nextraSink=(int)param("fanout",0,2);
    cfg.big=param("big",0,11)==0; // enough data for what only happens beyond the accumulator's 8 KiB pool buffers
    cfg.nbuf=(int)param("numBuffers",1,focusBuf?6:4); cfg.bufBytes=8*(size_t)(cfg.big?param("bigElems",300,2400):param("bufElems",2,40)); cfg.mgr=(int)param("manager",0,focusBuf?12:9); 
    const int nlab=(focusLab?param("labels",1,12):param("labels",-8,6)), nmsg=(int)(focusMsg?param("messages",1,160):param("messages",-60,40)), holdp=(int)(focusBuf?param("hold",1,3):param("hold",-3,2));
    const size_t units=(size_t)param("units",1,6);
    LRng g(sim::rnd());
    std::vector<std::shared_ptr<NodeBlock>> nodes; std::deque<Edge> edges; std::deque<Edge> sinkEdges; int ndecim=0;
    // structure first (decimators decide the source length)
    struct Plan { Kind k; int a,b; }; std::vector<Plan> plan;
    for(int i=0;i<nsrc;i++) plan.push_back({SRC,-1,-1});
    for(int i=0;i<nmid;i++){ Kind k=(Kind)(COPY+g.below(MUX-COPY+1)); if(k==MUX&&plan.size()<2) k=COPY; int a=(int)g.below(plan.size()),b=-1; if(k==MUX){ do b=(int)g.below(plan.size()); while(b==a); } if(k==DECIM){ if(ndecim>=2) k=ZERO; else ndecim++; } plan.push_back({k,a,b}); }
    if(ndecim&&cfg.nbuf<2) cfg.nbuf=2;
    size_t T=24*units*4;
    if(T>400) T=384; if(cfg.big) T*=24;
    std::vector<int> uses(plan.size(),0);
    for(size_t i=0;i<plan.size();i++){
        auto&p=plan[i]; if(p.k==MUX&&edges[p.a].v.size()!=edges[p.b].v.size()){ p.k=COPY; p.b=-1; } edges.emplace_back(); Edge&e=edges.back(); auto n=std::make_shared<NodeBlock>(p.k,(int)i);
        if(p.k==SRC){ for(size_t k=0;k<T;k++) e.v.push_back((ull)(i+1)<<32|k); for(int k=0;k<nlab;k++) e.lab.push_back({g.below(T),(int)(i*100+k)}); std::sort(e.lab.begin(),e.lab.end(),[](const ELabel&a,const ELabel&b){return a.at<b.at;}); e.nmsg=nmsg>0?nmsg:0; e.msgSrc=(int)i; }
        else {
            Edge&A=edges[p.a]; uses[p.a]++; n->in0=&A; e.nmsg=A.nmsg; e.msgSrc=A.msgSrc; e.lab=A.lab; e.v=A.v; nodes[p.a]->receivers.push_back(n.get());
            if(p.b>=0){ uses[p.b]++; n->in1=&edges[p.b]; nodes[p.b]->receivers.push_back(n.get()); }
            switch(p.k){
            case COPY: case RBW: case GETB: case WINDOW: for(auto&x:e.v) x=NodeBlock::bump(x); break;
            case EXPAND: { std::vector<ull> o; for(ull x:e.v){o.push_back(x);o.push_back(x);} e.v=o; for(auto&l:e.lab) l.at*=2; break; }
            case DECIM: { std::vector<ull> o; for(size_t k=0;k+1<e.v.size();k+=2) o.push_back(e.v[k]); e.v=o; for(auto&l:e.lab) l.at/=2; break; }
            case MUX: { std::vector<ull> o; auto&B=edges[p.b].v; for(size_t k=0;k<std::min(e.v.size(),B.size());k++){o.push_back(e.v[k]);o.push_back(B[k]);} for(auto&l:e.lab) l.at*=2; std::vector<ELabel> keep; for(auto&l:e.lab) if(l.at<o.size()) keep.push_back(l); e.lab=keep; e.v=o; break; }
            default: break; }
            if(p.k==COPY&&g.chance(1,3)){ static const size_t rs[]={2,3,4,6}; n->reserve=rs[g.below(4)]; if(e.v.size()%n->reserve) n->reserve=0; if(n->reserve*16>cfg.bufBytes) n->reserve=0; }
            if(p.k==WINDOW){ n->windowMax=std::max<size_t>(1,cfg.bufBytes/16); n->window=(size_t)g.range(1,n->windowMax); n->window=std::min(n->window,e.v.size()); }
        }
        if(p.k==EXPAND||p.k==MUX){ if(cfg.bufBytes<32) cfg.bufBytes=32; }
        if((n->reserve||n->window)&&cfg.nbuf<2) cfg.nbuf=2;
        if(p.k!=SINK&&p.k!=EXPAND&&p.k!=MUX&&p.k!=RAW&&g.chance(1,5)) n->outReserve=(size_t)g.range(1,std::max<size_t>(1,cfg.bufBytes/16));
        n->out=&e; n->outMgr=cfg.mgr<=5?1:cfg.mgr<=8?0:2; nodes.push_back(n);
    }
    // a mux that stops at the shorter input leaves elements behind: that is where its inputs may legitimately rest
    std::vector<std::shared_ptr<NodeBlock>> sinks; cfg.anyReserve=ndecim>0; for(auto&n:nodes) if(n->reserve||n->window) cfg.anyReserve=true;
    auto addSink=[&](int from){ auto s=std::make_shared<NodeBlock>(SINK,100+(int)sinks.size()); sinkEdges.push_back(edges[from]); s->in0=&sinkEdges.back(); s->holding=holdp>0&&g.chance(1,2); if(focusBuf&&g.chance(1,2)) s->patience=(int)g.range(1,12); s->directSrc=nodes[from].get(); uses[from]++; if(!s->rawSink&&g.chance(1,6)&&s->in0->v.size()%2==0){ s->reserve=2; cfg.anyReserve=true; if(cfg.nbuf<2) cfg.nbuf=2; } nodes[from]->receivers.push_back(s.get()); sinks.push_back(s); plan.push_back({SINK,from,-1}); };
    for(size_t i=0;i<edges.size();i++) if(uses[i]==0) addSink((int)i);
    cfg.anyWait=cfg.anyReserve; for(auto&n:nodes) if(n->kind==MUX) cfg.anyWait=true;
    for(int i=0;i<nextraSink;i++) addSink((int)g.below(edges.size()));
    for(auto&s:sinks) nodes.push_back(s);
    if(cfg.anyReserve) cfg.anyWait=true;
    // a cut element waits for its rest and keeps the buffers it lies in
    for(auto&n:nodes) if(n->kind==RAW){ cfg.anyWait=true; if(cfg.nbuf<6) cfg.nbuf=6; }
    // where paths meet again, the shorter one must be able to store what a stage on the longer one waits for
    { bool mux=false,win=false; for(auto&n:nodes){ mux|=n->kind==MUX; win|=n->window>1; } if(mux&&win&&cfg.nbuf<8) cfg.nbuf=8; }
    if(cfg.anyWait&&cfg.nbuf<2) cfg.nbuf=2;
    // receivers recognise their source by edge; sinks have private copies
    for(auto&s:sinks) s->directSrc=s->directSrc;
    {
        Pothos::Topology topo; const int pools=(int)param("pools",1,2);
        std::vector<Pothos::ThreadPool> tp; tp.emplace_back(pickPoolArgs("threadsA","yieldA")); if(pools==2) tp.emplace_back(pickPoolArgs("threadsB","yieldB"));
        topo.setThreadPool(tp[0]); if(pools==2) for(auto&n:nodes) if(g.chance(1,3)) n->setThreadPool(tp[1]);
        sim::quiet(true); std::vector<std::shared_ptr<Pothos::Topology>> subs; const int nest=(int)param("nesting",0,3);
        for(size_t i=0;i<plan.size();i++){
            auto&p=plan[i]; if(p.a<0) continue; BlockPtr dst=nodes[i];
            for(int port=0;port<2;port++){ int from=port?p.b:p.a; if(from<0) continue; BlockPtr src=nodes[from];
                int how=nest?(int)g.below(6):9;
                if(how==0){ auto sub=Pothos::Topology::make(); sub->connect(sub,"in",sub,"out"); topo.connect(src,0,sub,"in"); topo.connect(sub,"out",dst,port); subs.push_back(sub); } // pass-through
                else if(how==1&&nest>1){ auto sub=Pothos::Topology::make(); sub->connect(src,0,sub,"out"); topo.connect(sub,"out",dst,port); subs.push_back(sub); }   // source inside a nested design
                else if(how==2&&nest>1){ auto sub=Pothos::Topology::make(), sub2=Pothos::Topology::make(); sub2->connect(sub2,"x",dst,port); sub->connect(sub,"in",sub2,"x"); topo.connect(src,0,sub,"in"); subs.push_back(sub); subs.push_back(sub2); }
                else topo.connect(src,0,dst,port); }
        }
        sim::set_dump([](void*p){ for(auto&n:*(std::vector<std::shared_ptr<NodeBlock>>*)p){ sim::note("%s works %llu produced %llu consumed %llu/%zu rx %zu posted %llu held %zu in0 avail %zu",n->mon.name.c_str(),n->works,n->produced,n->consumedTotal,n->in0?n->in0->v.size():0,n->rxMsgs.size(),n->posted,n->held.size(),n->kind==SRC?0:n->input(0)->elements()); } },&nodes);
        std::atomic<bool> stop(false); std::vector<std::thread> helpers;
        if(holdp>0) for(int k=0;k<holdp&&k<2;k++) helpers.emplace_back([&,k]{ LRng r(977+k); while(!stop){ for(auto&s:sinks) if(s->holding) s->releaseOne(r); sim::sleep_ns(200000); } });
        sim::note("connected"); for(size_t i=0;i<plan.size();i++) sim::note("%zu %s <- %d %d  reserve %zu hold %d raw %d",i,nodes[i]->mon.name.c_str(),plan[i].a,plan[i].b,nodes[i]->reserve,nodes[i]->holding,nodes[i]->rawSink); if(param("commitSched",0,7)==0) sim::quiet(false); topo.commit(); sim::quiet(false); sim::note("committed");
        if(focusStats||param("stats",0,7)==0) helpers.emplace_back([&]{
            std::map<std::string,ull> last; const int maxq=(int)sim::param("statQueries",1,6);
            for(int q=0;q<maxq&&!stop;q++){
                json j=json::parse(topo.queryJSONStats());
                for(auto&n:nodes){ if(!j.count(n->uid())) continue; auto&s=j[n->uid()];
                    for(const char*d:{"inputStats","outputStats"}) if(s.count(d)) for(auto&ps:s[d]) for(const char*f:{"totalElements","totalBuffers","totalLabels","totalMessages"}){
                        std::string key=n->uid()+d+ps["portName"].get<std::string>()+f; ull v=ps[f]; SIM_CHECK(v>=last[key],"C28","statistic decreased","%s %s port %s %s went from %llu to %llu",n->mon.name.c_str(),d,ps["portName"].get<std::string>().c_str(),f,last[key],v); last[key]=v;
                        if(!strcmp(f,"totalElements")){ Edge*e=!strcmp(d,"outputStats")?n->out:(ps["portName"]=="1"?n->in1:n->in0); if(e) SIM_CHECK(v<=e->v.size()*(n->rawSink||n->kind==RAW?8:1),"C28","statistic too large","%s %s %s reports %llu elements, only %zu exist",n->mon.name.c_str(),d,f,v,e->v.size()); } }
                    for(const char*f:{"totalTimeTask","totalTimeWork","totalTimePreWork","totalTimePostWork"}){ long long v=s[f]; std::string key=n->uid()+f; SIM_CHECK(v>=0&&v<=(long long)sim::now_ns(),"C28","time statistic impossible","%s: %s = %lld ns after %llu ns of run time",n->mon.name.c_str(),f,v,(ull)sim::now_ns()); SIM_CHECK((ull)v>=last[key],"C28","statistic decreased","%s: %s went from %llu to %lld",n->mon.name.c_str(),f,last[key],v); last[key]=(ull)v; }
                    for(const char*f:{"numTaskCalls","numWorkCalls"}){ ull v=s[f]; std::string key=n->uid()+f; SIM_CHECK(v>=last[key]&&v<10000000,"C28","statistic decreased","%s: %s went from %llu to %llu",n->mon.name.c_str(),f,last[key],v); last[key]=v; }
                }
                sim::count("stats queries"); sim::sleep_ns(400000);
            } });
        waitUntil([&]{ for(auto&s:sinks){ if(s->consumedTotal<s->in0->v.size()) return false; if(s->rxN<(ull)s->in0->nmsg) return false; } return true; });
        sim::note("drained"); stop=true; for(auto&t:helpers) t.join();
        for(auto&s:sinks){ LRng r(5); while(!s->held.empty()) s->releaseOne(r); SIM_CHECK(s->nextLabel==s->in0->lab.size(),"C02","lost label","sink %s saw %zu of %zu labels",s->mon.name.c_str(),s->nextLabel,s->in0->lab.size()); }
        for(auto&n:nodes) if(n->kind!=SINK) sim::count("max messages ahead (sum)",n->maxAhead);
        if(focusStats){ // exact totals once idle
            sim::quiet(true); sim::faults_off(); bool idle=topo.waitInactive(0.02,2.0); (void)idle;
            json j=json::parse(topo.queryJSONStats()); for(auto&s:sinks){ auto&st=j[s->uid()]["inputStats"][0]; SIM_CHECK((ull)st["totalElements"]==s->in0->v.size()*(s->rawSink?8:1),"C28","final statistic","sink %s totalElements %llu, consumed %zu",s->mon.name.c_str(),(ull)st["totalElements"],s->in0->v.size()); SIM_CHECK((ull)st["totalMessages"]==s->rxMsgs.size(),"C28","final statistic","sink %s totalMessages wrong",s->mon.name.c_str()); SIM_CHECK((ull)st["totalLabels"]==s->in0->lab.size(),"C28","final statistic","sink %s totalLabels %llu of %zu",s->mon.name.c_str(),(ull)st["totalLabels"],s->in0->lab.size()); }
            for(auto&n:nodes) if(n->kind==SRC){ auto&st=j[n->uid()]["outputStats"][0]; SIM_CHECK((ull)st["totalElements"]==n->produced&&(ull)st["totalMessages"]==n->posted,"C28","final statistic","source totals %llu/%llu, real %llu/%llu",(ull)st["totalElements"],(ull)st["totalMessages"],n->produced,n->posted); }
        }
        sim::count("runs drained"); for(auto&n:nodes){ sim::count(kindName[n->kind]); sim::count("work calls",n->works);} 
        sim::count("elements checked",[&]{ull t=0; for(auto&s:sinks) t+=s->consumedTotal; return t;}()); sim::count("labels checked",[&]{ull t=0; for(auto&s:sinks) t+=s->labelsSeen; return t;}()); sim::count("messages checked",[&]{ull t=0; for(auto&s:sinks) t+=s->rxMsgs.size(); return t;}());
        sim::note("disconnecting"); if(param("teardownSched",0,7)!=0) sim::quiet(true); topo.disconnectAll(true); topo.commit(); sim::note("disconnected");
        for(auto&n:nodes) SIM_CHECK(!n->mon.active,"C06","still active","block %s is active after its connections were removed",n->mon.name.c_str());
    }
}
