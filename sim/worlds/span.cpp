// World "span" (C29): a design whose blocks live in several simulated processes and machines, driven through remote references.
// The network blocks that carry data between processes are stand-ins (they are not part of this repository).
// uses: net.cpp
#include "common.hpp"
#include "net.hpp"
#include <condition_variable>
#include <Pothos/Remote.hpp>
#include <Pothos/Framework/BlockRegistry.hpp>
#include <Poco/Net/StreamSocket.h>
#include <Poco/Net/StreamSocketImpl.h>
#include <Poco/Net/SocketStream.h>
#include <Poco/URI.h>

namespace {
const char*const P="C29";
std::atomic<long> liveBlocks{0}, netBlocks{0};
enum { MAXB=24 };
struct Rec { std::atomic<ull> got{0}, msgs{0}, labels{0}, produced{0}, posted{0}; std::atomic<int> act{0}, deact{0}, proc{-1}, calls{0}; std::atomic<bool> alive{false}; };
struct Board { Rec b[MAXB]; bool cut=false; } *BD;
ull elem(ull id,ull k){ return (id<<40)|k; }

struct SBlock: Pothos::Block
{
    int kind,id; Monitor mon; LRng r; ull budget=0; bool failNext=false; std::map<int,ull> next, nextMsg; int gapsAllowed=0; bool active=false;
    SBlock(int k,int i):kind(k),id(i),mon("span"+std::to_string(i)),r(i*77+5)
    {
        liveBlocks++; setName(mon.name); if(k!=0) setupInput(0,Pothos::DType(typeid(ull))); if(k!=2) setupOutput(0,Pothos::DType(typeid(ull)));
        registerCall(this,"give",&SBlock::give); registerCall(this,"twice",&SBlock::twice); registerCall(this,"setFail",&SBlock::setFail); registerCall(this,"allowGaps",&SBlock::allowGaps); registerCall(this,"refuse",&SBlock::refuse); registerCall(this,"received",&SBlock::received);
        SIM_CHECK(BD->b[i].proc<0,P,"harness: block id","%d",i); BD->b[i].proc=sim::process(); BD->b[i].alive=true;
    }
    ~SBlock(){ SIM_CHECK(!mon.inside,P,"destroyed while running","block %s destroyed while %s runs",mon.name.c_str(),mon.where); BD->b[id].alive=false; liveBlocks--; }
    void here(const char*w){ SIM_CHECK(sim::process()==BD->b[id].proc,P,"ran in the wrong process","%s of block %d ran in process %d",w,id,sim::process()); }
    void give(ull n){ Monitor::In g(mon,"call"); here("a call"); budget+=n; }
    ull twice(ull v){ Monitor::In g(mon,"call"); here("a call"); BD->b[id].calls++; return 2*v+id; }
    void setFail(bool f){ Monitor::In g(mon,"call"); failNext=f; }
    void allowGaps(){ Monitor::In g(mon,"call"); gapsAllowed++; }
    void refuse(const std::string&s){ Monitor::In g(mon,"call"); throw Pothos::RuntimeException("SBlock","refused "+s); }
    ull received(){ Monitor::In g(mon,"call"); return BD->b[id].got; }
    void activate() override { Monitor::In g(mon,"activate"); here("activate"); if(failNext){ failNext=false; throw Pothos::RuntimeException("SBlock","injected failure of "+mon.name); } SIM_CHECK(!active,P,"activated twice","block %d",id); active=true; BD->b[id].act++; }
    void deactivate() override { Monitor::In g(mon,"deactivate"); here("deactivate"); SIM_CHECK(active,P,"deactivated twice","block %d",id); active=false; BD->b[id].deact++; }
    void propagateLabels(const Pothos::InputPort*in) override { Pothos::Block::propagateLabels(in); }
    void seen(std::map<int,ull>&n,ull v,const char*what)
    {
        const int from=(int)(v>>40); const ull k=v&((1ull<<40)-1); auto it=n.find(from); ull want=it==n.end()?0:it->second;
        if(k!=want){ SIM_CHECK(k>want,P,"data repeated or reordered","block %d: %s %llu of block %d arrived where %llu was next",id,what,k,from,want); SIM_CHECK(gapsAllowed>0||BD->cut,P,"data lost","block %d: %s %llu of block %d arrived where %llu was next",id,what,k,from,want); }
        n[from]=k+1;
    }
    void work() override
    {
        Monitor::In g(mon,"work"); here("work"); SIM_CHECK(active,P,"work outside activation","block %d",id); Rec&rc=BD->b[id];
        if(kind==0){
            if(rc.produced>=budget) return; auto o=output(0); size_t n=std::min<size_t>(o->elements(),budget-rc.produced); if(n>r.below(20)+1) n=1+n/2; if(!n) return;
            ull*q=o->buffer().as<ull*>(); for(size_t i=0;i<n;i++){ const ull k=rc.produced+i; q[i]=elem(id,k); if(k%5==0) o->postLabel("at",Pothos::Object(elem(id,k)),i); } o->produce(n); rc.produced+=n;
            if(r.chance(1,3)){ const ull m=rc.posted; rc.posted++; o->postMessage(elem(id,m)); }
            if(rc.produced<budget) yield(); return; }
        auto in=input(0); while(in->hasMessage()){ Pothos::Object m=in->popMessage(); const ull v=m.convert<ull>(); seen(nextMsg,v,"message"); rc.msgs++; if(kind==1) output(0)->postMessage(m); }
        size_t n=in->elements(); if(kind==1) n=std::min(n,output(0)->elements()); if(!n) return;
        const ull*p=in->buffer().as<const ull*>(); for(size_t i=0;i<n;i++) seen(next,p[i],"element");
        for(const auto&l:in->labels()) if(l.id=="at"&&l.index<n){ SIM_CHECK(l.data.convert<ull>()==p[l.index],P,"label displaced","block %d: label of %llx arrived at %llx",id,l.data.convert<ull>(),p[l.index]); rc.labels++; }
        if(kind==1){ memcpy(output(0)->buffer().as<void*>(),p,n*8); output(0)->produce(n); } in->consume(n); rc.got+=n;
    }
};
Pothos::Block*makeS(int k,int i){ return new SBlock(k,i); }
static Pothos::BlockRegistry regS("/sim/span",Pothos::Callable(&makeS));

//--------------------------------------------------------------------------- stand-ins for the network blocks
struct Packet { std::vector<char> bytes; std::vector<Pothos::Label> labels; Pothos::Object msg; Pothos::DType dt; };
struct Channel { std::mutex m; std::condition_variable cv; std::deque<Packet> q; int ends=0; };
std::map<int,std::shared_ptr<Channel>>*channels; int nextPort=7000;
struct Net: Pothos::Block
{
    std::shared_ptr<Channel> ch; int port=0; bool sink; Packet left; size_t off=0; bool have=false; int proc;
    Net(const std::string&uri,const std::string&opt,bool s):sink(s),proc(sim::process())
    {
        netBlocks++; if(s) setupInput(0); else setupOutput(0,Pothos::DType(typeid(ull)));
        registerCall(this,"getActualPort",&Net::getActualPort);
        sim::NoSched n; Poco::URI u(uri); 
        if(opt=="BIND"){ port=nextPort++; ch.reset(new Channel); (*channels)[port]=ch; const int nd=sim::kern::node_of[proc]; SIM_CHECK(u.getHost()=="10.0.0."+std::to_string(10+nd),P,"bound to another machine's address","a network block on machine %d was told to bind to %s",nd,u.getHost().c_str()); }
        else { auto it=channels->find(u.getPort()); SIM_CHECK(it!=channels->end(),P,"connected to nothing","a network block connects to port %d",(int)u.getPort()); ch=it->second; port=u.getPort(); }
        SIM_CHECK(++ch->ends<=2,P,"harness: channel ends","%d",ch->ends);
    }
    ~Net(){ netBlocks--; }
    std::string getActualPort(){ return std::to_string(port); }
    void work() override
    {
        if(sink){
            auto in=input(0);
            { std::lock_guard<std::mutex> l(ch->m); if(ch->q.size()>6){ yieldSoon(); return; } }
            if(in->hasMessage()){ Packet p; p.msg=in->popMessage(); put(p); yield(); return; }
            auto b=in->buffer(); const size_t n=in->elements()/8*8; if(!n) return; Packet p; p.bytes.assign(b.as<const char*>(),b.as<const char*>()+n); for(const auto&l:in->labels()) if(l.index<n) p.labels.push_back(l); put(p); in->consume(n); return; }
        auto o=output(0);
        if(!have){ std::lock_guard<std::mutex> l(ch->m); if(ch->q.empty()){ yieldSoon(); return; } left=ch->q.front(); ch->q.pop_front(); have=true; off=0; }
        if(left.msg){ o->postMessage(left.msg); have=false; left=Packet(); yield(); return; }
        size_t room=o->elements()*8, n=std::min(room,left.bytes.size()-off); memcpy(o->buffer().as<void*>(),left.bytes.data()+off,n); for(auto l:left.labels) if(l.index>=off&&l.index<off+n){ l.index=(l.index-off)/8; l.width=1; o->postLabel(l); } o->produce(n/8); off+=n; if(off==left.bytes.size()){ have=false; left=Packet(); } yield();
    }
    void put(const Packet&p){ std::lock_guard<std::mutex> l(ch->m); ch->q.push_back(p); }
    void yieldSoon(){ yield(); }
};
struct NetS: Net { using Net::Net; void work() override { Net::work(); sim::sleep_ns(100000); } };
Pothos::Block*makeSink(const std::string&u,const std::string&o){ return new NetS(u,o,true); }
Pothos::Block*makeSource(const std::string&u,const std::string&o){ return new NetS(u,o,false); }
static Pothos::BlockRegistry regA("/blocks/network_sink",Pothos::Callable(&makeSink)), regB("/blocks/network_source",Pothos::Callable(&makeSource));

struct Server
{
    int h,proc; std::thread acceptor; std::mutex m; std::vector<std::thread> sessions; std::atomic<bool> over{false};
    Server(int h_,int p):h(h_),proc(p){ sim::net::listen(h,5000+proc); acceptor=std::thread([this]{ sim::set_process(proc); loop(); }); }
    void loop(){ for(;;){ char peer[64]; int fd=sim::net::accept(h,5000+proc,peer,sizeof peer); if(fd<0) return; std::string pa(peer);
        std::lock_guard<std::mutex> l(m); sessions.emplace_back([fd,pa]{ try { Poco::Net::StreamSocket sock(new Poco::Net::StreamSocketImpl(fd)); Poco::Net::SocketStream io(sock); Pothos::RemoteHandler handler(pa); handler.runHandler(io,io); } catch(...){} }); } }
    void stop(){ sim::net::unlisten(h,5000+proc); acceptor.join(); for(auto&t:sessions) t.join(); }
};
struct Node { Pothos::Proxy p; int kind=0,id=0,env=0; };
}

SIM_WORLD(span)
{
    using sim::param; using namespace sim; sim::set_caps(500000,25000000); LRng g(sim::rnd()); Board bd; BD=&bd; std::map<int,std::shared_ptr<Channel>> chs; channels=&chs; sim::net::enable(true);
    for(auto k:{F_NET_FRAGMENT,F_NET_DELAY,F_EINTR}) enable_fault(k);
    const int ns=(int)param("servers",1,2); const bool oneMachine=param("oneMachine",0,3)==3; const bool cut=param("cut",0,3)==3; bd.cut=cut;
    const int shape=(int)param("shape",0,3), rounds=(int)param("rounds",1,3), callers=(int)param("callers",0,2);
    for(int i=0;i<=ns;i++) sim::kern::node_of[i]=oneMachine?1:1+i;
    std::deque<Server>&servers=*new std::deque<Server>; std::vector<std::string> names;
    for(int i=0;i<ns;i++){ std::string n="server"+std::to_string(i); sim::net::add_host(n.c_str(),("10.0.0."+std::to_string(10+sim::kern::node_of[i+1])).c_str()); names.push_back(n); if(oneMachine) break; }
    for(int i=0;i<ns;i++) servers.emplace_back(oneMachine?0:i,i+1);
    bool lost=false; std::string why;
    {
        std::vector<Pothos::ProxyEnvironment::Sptr> envs; std::vector<Pothos::RemoteClient> clients;
        try {
        envs.push_back(Pothos::ProxyEnvironment::make("managed"));
        for(int i=0;i<ns;i++){ clients.emplace_back("tcp://"+names[oneMachine?0:i]+":"+std::to_string(5001+i),5000000); envs.push_back(clients.back().makeEnvironment("managed")); SIM_CHECK(envs[i+1]->getUniquePid()!=envs[0]->getUniquePid(),P,"harness: processes","not separate: %s",envs[0]->getUniquePid().c_str()); }
        if(cut){ enable_fault(F_CONN_RESET); }
        int nextId=0; auto mk=[&](int kind){ Node n; n.kind=kind; n.id=nextId++; n.env=(int)g.below(envs.size()); n.p=envs[n.env]->findProxy("Pothos/BlockRegistry").call("/sim/span",kind,n.id); SIM_CHECK(bd.b[n.id].proc==n.env,P,"created in the wrong process","block %d made in process %d",n.id,(int)bd.b[n.id].proc); return n; };
        std::vector<Node> nodes; std::unique_ptr<Pothos::Topology> topp(new Pothos::Topology); auto&top=*topp; struct Edge { int a,b; bool on; }; std::vector<Edge> edges;
        nodes.reserve(16); nodes.push_back(mk(0));
        switch(shape){
        case 0: nodes.push_back(mk(2)); edges.push_back({0,1,true}); break;
        case 1: nodes.push_back(mk(1)); nodes.push_back(mk(2)); edges={{0,1,true},{1,2,true}}; break;
        case 2: nodes.push_back(mk(2)); nodes.push_back(mk(2)); edges={{0,1,true},{0,2,true}}; break;
        default: nodes.push_back(mk(1)); nodes.push_back(mk(2)); nodes.push_back(mk(2)); edges={{0,1,true},{1,2,true},{1,3,true}}; break; }
        std::atomic<bool> stop{false}; std::vector<std::thread> th; const size_t base=nodes.size();
        try {
        for(auto&e:edges) top.connect(nodes[e.a].p,0,nodes[e.b].p,0);
        if(!cut&&param("failing",0,3)==3){ // a remote activation failure is reported by the commit, with its text
            auto&v=nodes[g.below(nodes.size())]; v.p.call("setFail",true); bool threw=false;
            try { top.commit(); } catch(const Pothos::Exception&e){ threw=true; SIM_CHECK(e.displayText().find("injected failure of span"+std::to_string(v.id))!=std::string::npos,P,"commit error lost","commit failed with: %s",e.displayText().c_str()); }
            SIM_CHECK(threw,P,"commit error lost","commit succeeded although a block in process %d failed to activate",(int)bd.b[v.id].proc);
            top.disconnectAll(); top.commit(); for(auto&e:edges) top.connect(nodes[e.a].p,0,nodes[e.b].p,0); sim::count("failed remote activations");
        }
        top.commit();
        for(auto&n:nodes) SIM_CHECK(bd.b[n.id].act>=1,P,"not activated","block %d in process %d is not active after the commit",n.id,(int)bd.b[n.id].proc);
        for(int c=0;c<callers;c++){ const uint64_t sd=g.next(); th.emplace_back([&,sd]{ LRng r(sd); try { while(!stop){ auto&n=nodes[r.below(base)]; const ull v=r.below(1u<<30); const int before=bd.b[n.id].calls; ull got=n.p.call<ull>("twice",v); SIM_CHECK(got==2*v+n.id,P,"wrong call result","call to block %d returned %llu for %llu",n.id,got,v); SIM_CHECK(bd.b[n.id].calls>before,P,"call not executed","block %d",n.id);
                if(r.chance(1,4)){ bool threw=false; try { n.p.call("refuse",std::to_string(v)); } catch(const Pothos::IOException&){ throw; } catch(const Pothos::Exception&e){ threw=e.displayText().find("refused "+std::to_string(v))!=std::string::npos||cut; } SIM_CHECK(threw,P,"exception lost","a failing call to block %d",n.id); }
                sim::sleep_ns(r.range(100000,3000000)); } } catch(const Pothos::Exception&e){ if(!cut) sim::violate(P,"call failed on a healthy connection","%s",e.displayText().c_str()); } }); }
        ull given=0;
        for(int k=0;k<rounds;k++){
            const ull n=g.range(1,40); nodes[0].p.call("give",n); given+=n;
            auto sinksDone=[&]{ for(auto&e:edges) if(e.on&&(bd.b[e.b].got<bd.b[e.a].got+(e.a==0?bd.b[0].produced.load():0ull)||bd.b[0].produced<given)) return false; return true; };
            // exactly-once counts are only exact on connections that were never changed
            if(k==0) waitUntil([&]{ if(cut&&net::resets()) return true; for(auto&nd:nodes){ Rec&rc=bd.b[nd.id]; if(nd.kind==0?rc.produced<given:(rc.got<given||rc.msgs<bd.b[0].posted)) return false; } return true; },500000);
            else waitUntil([&]{ if(cut&&net::resets()) return true; return bd.b[0].produced>=given&&sinksDone(); },500000);
            if(!cut&&k==0) for(auto&nd:nodes) if(nd.kind==2) SIM_CHECK(nd.p.call<ull>("received")==given,P,"data lost or repeated","sink %d received %llu of %llu",nd.id,(ull)bd.b[nd.id].got,given);
            if(g.chance(1,3)&&!cut){ SIM_CHECK(top.waitInactive(0.02,callers?0.1:5.0)||callers,P,"idle design reported busy","waitInactive timed out on an idle design"); }
            if(k+1<rounds){ // edit: a branch goes and comes back, or a new sink appears in some process
                if(shape>=2&&g.chance(1,2)){ auto&e=edges.back(); const auto before=bd.b[e.b].deact.load(); top.disconnect(nodes[e.a].p,0,nodes[e.b].p,0); top.commit(); SIM_CHECK(cut||bd.b[e.b].deact==before+1,P,"not deactivated","removed block %d was deactivated %d times",nodes[e.b].id,bd.b[e.b].deact-before);
                    nodes[e.b].p.call("allowGaps"); if(g.chance(1,2)){ ull m=g.range(1,30); nodes[0].p.call("give",m); given+=m; } top.connect(nodes[e.a].p,0,nodes[e.b].p,0); top.commit(); e.on=false; for(auto&x:edges) if(&x==&e) x.on=false; sim::count("branches replaced"); }
                else if((int)nodes.size()<8){ Node nn=mk(2); nn.p.call("allowGaps"); nodes.push_back(nn); top.connect(nodes[0].p,0,nn.p,0); top.commit(); SIM_CHECK(cut||bd.b[nn.id].act==1,P,"not activated","new block %d",nn.id); edges.push_back({0,nn.id,false}); sim::count("sinks added"); }
            }
        }
        } catch(...) { stop=true; for(auto&t:th) t.join(); if(nodes[0].env==0&&bd.b[0].alive&&g.chance(2,3)) nodes[0].p.call("give",(ull)g.range(1,400)); throw; } // a local source that is busy while the design goes away
        stop=true; for(auto&t:th) t.join();
        const int how=(int)g.below(3); if(how==0){ top.disconnectAll(); top.commit(); for(auto&n:nodes) SIM_CHECK(cut||bd.b[n.id].act==bd.b[n.id].deact,P,"not deactivated","block %d was activated %d and deactivated %d times",n.id,(int)bd.b[n.id].act,(int)bd.b[n.id].deact); } else if(how==1){ topp.reset(); }
        else nodes.clear();
        } catch(const Pothos::Exception&e){ if(!cut) sim::violate(P,"operation failed on a healthy connection","%s",e.displayText().c_str()); lost=true; why=e.displayText(); sim::count("operations failed after a cut"); }
        catch(const std::exception&e){ sim::violate(P,"unexpected exception type","%s",e.what()); }
    }
    if(cut&&net::resets()){ // the local side still works; what the dead peer held is gone with it
        auto env=Pothos::ProxyEnvironment::make("managed"); auto reg=env->findProxy("Pothos/BlockRegistry"); sim::faults_off();
        { Pothos::Topology t; auto a=reg.call("/sim/span",0,MAXB-2), b=reg.call("/sim/span",2,MAXB-1); t.connect(a,0,b,0); t.commit(); a.call("give",(ull)10); waitUntil([&]{ return bd.b[MAXB-1].got>=10; }); }
        for(int i=0;i<MAXB;i++) if(bd.b[i].proc==0) { SIM_CHECK(!bd.b[i].alive,P,"local block leaked","local block %d still exists after its design and references are gone",i); SIM_CHECK(bd.b[i].act==bd.b[i].deact,P,"local block left active","local block %d was activated %d times and deactivated %d times when its design was gone",i,(int)bd.b[i].act,(int)bd.b[i].deact); }
        sim::count("local side survived a cut"); return;
    }
    for(auto&s:servers) s.stop();
    SIM_CHECK(liveBlocks==0,P,"block leaked","%ld blocks still exist after every reference is gone",(long)liveBlocks);
    SIM_CHECK(netBlocks==0,P,"block leaked","%ld network blocks still exist after every reference is gone",(long)netBlocks);
}
