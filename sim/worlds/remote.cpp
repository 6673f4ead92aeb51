// World "remote": real RemoteClient environments and real RemoteHandler sessions joined by simulated connections.
// C14 concurrent calls get their own results, C15 lost connections fail calls, C16 the server survives bad peers,
// C17 references keep remote objects alive exactly as long as needed.
#include "common.hpp"
#include "simstream.hpp"
#include <Pothos/Remote.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <sstream>
#include <climits>

namespace {
const char*const P14="C14 C15 C16 C17";
//------------------------------------------------------------------------------------------------ server side objects
enum { MAXT=256 };
struct Rec { int made=0, gone=0; int refs=0; };
struct Board { Rec t[MAXT]; std::map<ull,int> touched; long pinged=0, ponged=0, opaque=0; } *BD; // pings the server has executed, and those whose callers have the result
std::string text(ull v){ return "t"+std::to_string(v*2654435761ull); }

struct Thing
{
    const int id; const int proc; ull canary; std::shared_ptr<void> keeps; bool slowGone=false;
    Thing(int i):id(i),proc(sim::process()),canary(0xfeedull+i){ sim::NoSched n; SIM_CHECK(i>=0&&i<MAXT,"*","harness: thing id","%d",i); BD->t[i].made++; }
    ~Thing(){ if(slowGone) sim::sleep_ns(2000000); sim::NoSched n; SIM_CHECK(canary==0xfeedull+id,"C17","object destroyed twice","thing %d",id); canary=0; BD->t[id].gone++; }
    Thing(const Thing&)=delete;
    void ok(const char*w) const { SIM_CHECK(canary==0xfeedull+id,"C17 C14 C16","destroyed object used","%s on a destroyed object",w); SIM_CHECK(proc==sim::process(),"C14 C17","object of another process used","%s in process %d on an object of process %d",w,sim::process(),proc); }
    static std::shared_ptr<Thing> make(int i){ return std::make_shared<Thing>(i); }
    ull compute(ull a,const std::string&s) const { ok("compute"); SIM_CHECK(s==text(a),"C14","argument changed","call %llx arrived with text '%s'",a,s.c_str()); if(a%7==0) sim::sleep_ns(1+(a%5)*400000); return a*3+id; }
    int ping() const { ok("ping"); sim::NoSched n; BD->pinged++; return id; }
    void gate() const { ok("gate"); long due; { sim::NoSched n; due=BD->pinged; } for(;;){ { sim::NoSched n; if(BD->ponged>=due) break; } sim::sleep_ns(30000); } } // returns once the results of the earlier pings have reached their callers
    std::string echoStr(const std::string&s) const { ok("echo"); return s; }
    std::vector<ull> echoVec(const std::vector<ull>&v) const { ok("echo"); return v; }
    long long negate(long long v) const { return -v; }
    double half(double v) const { return v/2; }
    bool flip(bool v) const { return !v; }
    void fail(ull a) const { ok("fail"); throw Pothos::RuntimeException("Thing","refused "+std::to_string(a)); }
    void failStd(ull a) const { ok("fail"); throw std::runtime_error("refused "+std::to_string(a)); }
    ull combine(const std::shared_ptr<Thing>&op,ull a) const { const Thing&o=*op; ok("combine"); o.ok("combine (argument)"); if(a%3==0) sim::yield(); ok("combine"); o.ok("combine (argument)"); return a+1000*id+o.id; }
    void touch(ull r){ ok("touch"); sim::NoSched n; BD->touched[r]++; }
    void beSlow(){ slowGone=true; }
    void slow(ull ns) const { ok("slow"); sim::sleep_ns(ns); ok("slow (after)"); }
    static std::shared_ptr<Thing> makeKeeper(int i,int j); // an object that is itself a client of this very server, until it is destroyed
};
std::shared_ptr<Thing> selfOf(const std::shared_ptr<Thing>&t){ return t; }
struct Opaque { Opaque(){} int x=7; };     // a type without serialization
Opaque makeOpaque(){ return Opaque(); }
static auto managedThing=Pothos::ManagedClass().registerClass<Thing>().registerStaticMethod("make",&Thing::make)
    .registerMethod(POTHOS_FCN_TUPLE(Thing,compute)).registerMethod(POTHOS_FCN_TUPLE(Thing,echoStr)).registerMethod(POTHOS_FCN_TUPLE(Thing,echoVec)).registerMethod(POTHOS_FCN_TUPLE(Thing,negate)).registerMethod(POTHOS_FCN_TUPLE(Thing,half)).registerMethod(POTHOS_FCN_TUPLE(Thing,flip))
    .registerMethod(POTHOS_FCN_TUPLE(Thing,fail)).registerMethod(POTHOS_FCN_TUPLE(Thing,failStd)).registerMethod(POTHOS_FCN_TUPLE(Thing,combine)).registerMethod(POTHOS_FCN_TUPLE(Thing,touch)).registerMethod(POTHOS_FCN_TUPLE(Thing,beSlow)).registerMethod(POTHOS_FCN_TUPLE(Thing,slow)).registerMethod(POTHOS_FCN_TUPLE(Thing,gate)).registerMethod(POTHOS_FCN_TUPLE(Thing,ping)).registerStaticMethod("makeKeeper",&Thing::makeKeeper)
    .registerStaticMethod("self",&selfOf).registerStaticMethod("opaque",&makeOpaque).commit("SimRemote/Thing");

//------------------------------------------------------------------------------------------------ one connection
struct Link
{
    Pipe up, down; // client to server, server to client
    std::unique_ptr<PipeIStream> sis,cis; std::unique_ptr<PipeOStream> sos,cos; std::unique_ptr<PipeIO> cio,sio; std::thread server; std::string ended; std::atomic<bool> over{false}; bool single; int proc=1;
    Link(LRng&r,bool single_):single(single_)
    {
        static const size_t sz[]={1,3,16,64,200,255}; auto pick=[&]{ return sz[r.below(6)]; };
        if(r.chance(1,3)){ up.cap=1+r.below(40); down.cap=1+r.below(40); }
        if(single){ cio.reset(new PipeIO(down,up,pick(),pick())); sio.reset(new PipeIO(up,down,pick(),pick())); }
        else { sis.reset(new PipeIStream(up,pick())); cis.reset(new PipeIStream(down,pick())); sos.reset(new PipeOStream(down,pick())); cos.reset(new PipeOStream(up,pick())); }
    }
    std::istream&csi(){ return single?(std::istream&)*cio:*cis; } std::ostream&cso(){ return single?(std::ostream&)*cio:*cos; }
    std::istream&ssi(){ return single?(std::istream&)*sio:*sis; } std::ostream&sso(){ return single?(std::ostream&)*sio:*sos; }
    void serve()
    {
        server=std::thread([this]{ sim::set_process(proc);
            try { Pothos::RemoteHandler h("10.1.2.3"); h.runHandler(ssi(),sso()); ended="done"; } catch(const std::exception&e){ ended=e.what(); } catch(...){ ended="exception"; } // as Poco's TCP server does
            down.end(); up.stopReading(); over=true; });
    }
    void closeClient(){ up.end(); down.stopReading(); }
    ~Link(){ if(server.joinable()) server.join(); }
};

struct Kept { Link k; Pothos::ProxyEnvironment::Sptr env; Pothos::Proxy p; Kept(LRng r,int j):k(r,r.chance(1,2)){ k.serve(); env=Pothos::RemoteClient::makeEnvironment(k.csi(),k.cso(),"managed"); p=env->findProxy("SimRemote/Thing").call("make",j); } ~Kept(){ p=Pothos::Proxy(); env.reset(); k.closeClient(); k.server.join(); } };
std::shared_ptr<Thing> Thing::makeKeeper(int i,int j){ auto t=std::make_shared<Thing>(i); t->keeps=std::make_shared<Kept>(LRng(((ull)i<<20)+j*77+5),j); return t; }
//------------------------------------------------------------------------------------------------ client side
struct Held { Pothos::Proxy p; int id=-1, proc=1; }; // the reference, the thing and the server process it lives in
struct Clients
{
    std::mutex m; std::vector<Held> shared; std::atomic<int> nextThing{0}; std::atomic<bool> broken{false}; bool healthy=true; std::atomic<int> nextReq{1}; int limit=MAXT;
    void ref(int id){ sim::NoSched n; BD->t[id].refs++; }
    void drop(Held&h)
    {
        if(h.id<0) return; const int id=h.id; h.p=Pothos::Proxy(); h.id=-1;
        sim::NoSched n; const int left=--BD->t[id].refs;
        if(left==0&&healthy) SIM_CHECK(BD->t[id].gone==1,"C17","remote object not released","thing %d was released %d times although the last reference to it is gone",id,BD->t[id].gone);
    }
    void alive(const Held&h){ if(!healthy) return; sim::NoSched n; SIM_CHECK(BD->t[h.id].gone==0,"C17","remote object released early","thing %d is gone although %d references to it exist",h.id,BD->t[h.id].refs); }
};
bool hasText(const Pothos::Exception&e,const std::string&s){ return e.displayText().find(s)!=std::string::npos; }

struct Client
{
    Clients&c; Pothos::ProxyEnvironment::Sptr env; Pothos::Proxy cls; LRng r; int tno; std::vector<Held> mine; const bool healthy; Pothos::ProxyEnvironment::Sptr other; bool dead=false, gates=false, waits=false; int proc=1; uint64_t started=0;
    Client(Clients&c_,Pothos::ProxyEnvironment::Sptr e,uint64_t seed,int t):c(c_),env(e),r(seed),tno(t),healthy(c_.healthy){}
    ull uniq(){ return ((ull)(tno+1)<<40)|(ull)(c.nextReq++); }
    void make(){ int id=c.nextThing++; if(id>=c.limit){ if(dead) throw Pothos::IOException("no more things"); return; } Held h; h.p=cls.call("make",id); h.id=id; h.proc=proc; c.ref(id); mine.push_back(h); }
    // an object of one server process cannot be given to another one, unless it can be sent by value
    template<class F> void foreign(const char*w,F f){ bool threw=false; try { f(); } catch(const Pothos::IOException&){ throw; } catch(const Pothos::Exception&){ threw=true; } SIM_CHECK(threw,"C14 C17","reference accepted by another process","%s with an object of another server process succeeded",w); sim::count("foreign references"); }
    bool op(unsigned what)
    {
        if(mine.empty()&&what!=0&&what!=5) what=0;
        if(what==17&&!sim::property_is("C17")&&!sim::property_is("C14")) what=mine.empty()?0:1;
        Held*h=mine.empty()?nullptr:&mine[r.below(mine.size())];
        switch(what){
        case 0: make(); break;
        default: case 1: { const ull a=uniq(); ull v=h->p.call<ull>("compute",a,text(a)); SIM_CHECK(v==a*3+h->id,P14,"wrong result","compute(%llx) on thing %d returned %llx",a,h->id,v); break; }
        case 2: { const ull a=uniq(); bool threw=false; const bool st=r.chance(1,2); try{ h->p.call(st?"failStd":"fail",a); } catch(const Pothos::IOException&){ throw; } catch(const Pothos::Exception&e){ threw=true; if(healthy) SIM_CHECK(hasText(e,"refused "+std::to_string(a)),P14,"wrong exception","call %llx failed with: %s",a,e.displayText().c_str()); else if(!hasText(e,"refused "+std::to_string(a))) throw; } SIM_CHECK(threw,P14,"exception lost","a failing remote call returned"); break; }
        case 3: { switch(r.below(5)){
            case 0: { std::string s; size_t n=r.chance(1,4)?0:r.chance(1,6)?r.range(900,2600):r.chance(1,16)?r.range(4000,9000):r.below(60); for(size_t k=0;k<n;k++) s.push_back((char)r.next()); std::string v=h->p.call<std::string>("echoStr",s); SIM_CHECK(v==s,P14,"value changed","a string of %zu bytes came back with %zu bytes",s.size(),v.size()); break; }
            case 1: { std::vector<ull> s(r.below(9)); for(auto&x:s) x=r.next(); auto v=h->p.call<std::vector<ull>>("echoVec",s); SIM_CHECK(v==s,P14,"value changed","a vector of %zu came back different",s.size()); break; }
            case 2: { long long x=(long long)(r.next()>>r.below(63)); if(r.chance(1,2)) x=-x; if(x==LLONG_MIN) x=5; auto v=h->p.call<long long>("negate",x); SIM_CHECK(v==-x,P14,"value changed","negate(%lld) returned %lld",x,v); break; }
            case 3: { double x=(double)(int64_t)r.next()/1024; auto v=h->p.call<double>("half",x); SIM_CHECK(v==x/2,P14,"value changed","half(%f) returned %f",x,v); break; }
            default: { bool x=r.chance(1,2); auto v=h->p.call<bool>("flip",x); SIM_CHECK(v==!x,P14,"value changed","flip"); break; } } break; }
        case 4: { Held k=*h; c.ref(k.id); std::lock_guard<std::mutex> l(c.m); c.shared.push_back(k); break; }
        case 5: { Held k; { std::lock_guard<std::mutex> l(c.m); if(c.shared.empty()) return true; size_t i=r.below(c.shared.size()); k=std::move(c.shared[i]); c.shared.erase(c.shared.begin()+i); } mine.push_back(k); c.alive(k); break; }
        case 6: { Held k=std::move(*h); mine.erase(mine.begin()+(h-&mine[0])); c.drop(k); break; }
        case 7: { Held k; if(h->proc!=proc){ foreign("self",[&]{ cls.call("self",h->p); }); break; } k.p=cls.call("self",h->p); k.id=h->id; k.proc=h->proc; c.ref(k.id); mine.push_back(k); c.alive(k); break; }
        case 8: { Held&q=mine[r.below(mine.size())]; const ull a=uniq(); if(q.proc!=h->proc){ foreign("combine",[&]{ h->p.call("combine",q.p,a); }); break; } ull v=h->p.call<ull>("combine",q.p,a); SIM_CHECK(v==a+1000*h->id+q.id,P14,"wrong result","combine of things %d and %d returned %llx for %llx",h->id,q.id,v,a); break; }
        case 9: { bool threw=false; try{ h->p.call("noSuchMethod",1); } catch(const Pothos::IOException&){ throw; } catch(const Pothos::Exception&e){ threw=true; } SIM_CHECK(threw,P14,"unknown method succeeded","calling an unknown method did not fail"); break; }
        case 10: { std::string n=h->p.getClassName(); SIM_CHECK(n.find("Thing")!=std::string::npos||!healthy,P14,"wrong result","class name '%s'",n.c_str()); size_t a=h->p.hashCode(), b=h->p.hashCode(); SIM_CHECK(a==b,P14,"wrong result","hash codes of one object differ"); break; }
        case 11: { bool threw=false; try{ env->findProxy("SimRemote/NoSuch"); } catch(const Pothos::ProxyEnvironmentFindError&){ threw=true; } SIM_CHECK(threw,P14,"unknown class found","findProxy of an unknown class did not fail"); break; }
        case 12: { bool threw=false; try{ h->p.call("echoStr",Opaque()); } catch(const Pothos::IOException&){ throw; } catch(const Pothos::Exception&){ threw=true; } SIM_CHECK(threw,P14,"unserializable argument","a call with an argument that cannot be sent succeeded"); sim::count("unserializable"); break; }
        case 13: { auto p=cls.call("opaque"); bool threw=false; try{ p.toObject(); } catch(const Pothos::IOException&){ throw; } catch(const Pothos::Exception&){ threw=true; } SIM_CHECK(threw,P14,"unserializable result","a value that cannot be sent was received"); sim::count("unserializable"); break; }
        case 14: { const ull q=uniq(); try{ h->p.call("touch",q); } catch(...){ sim::NoSched n; SIM_CHECK(!BD->touched.count(q)||BD->touched[q]==1,"C16","request executed more than once","request %llx ran %d times",q,BD->touched[q]); throw; } sim::NoSched n; SIM_CHECK(BD->touched[q]==1,"C16 C14","request not executed exactly once","request %llx ran %d times",q,BD->touched[q]); break; }
        case 15: { h->p.call("beSlow"); break; }
        case 17: { int id=c.nextThing++, jd=c.nextThing++; if(jd>=c.limit) return true; Held k; k.p=cls.call("makeKeeper",id,jd); k.id=id; k.proc=proc; c.ref(id); mine.push_back(k); sim::count("keepers"); break; }
        case 19: { auto q=h->p.call("ping"); { sim::NoSched n; BD->ponged++; } SIM_CHECK(q.convert<int>()==h->id,P14,"wrong result","ping of thing %d",h->id); break; }
        case 18: { if(!gates) { h->p.call("slow",r.range(1,200000)); break; } h->p.call("gate"); sim::count("gates"); break; }
        case 16: { std::string v=h->p.call<std::string>("echoStr",env->convertObjectToProxy(Pothos::Object(std::string("conv")))); SIM_CHECK(v=="conv",P14,"value changed","conv came back as '%s'",v.c_str()); break; }
        }
        if(healthy&&h&&what!=6&&!mine.empty()) for(auto&k:mine) c.alive(k);
        return true;
    }
    void run(int nops)
    {
        static const unsigned char mix[]={0,0,1,1,1,1,2,2,3,3,3,4,5,6,7,8,8,9,10,11,12,13,14,14,16,15,17,18,19,19,19};
        for(int k=0;k<nops;k++){
            unsigned what=mix[r.below(sizeof mix)]; if(waits&&k&&r.chance(2,3)) what=r.chance(1,3)?18:19; sim::count("remote operations");
            const uint64_t t0=sim::now_ns(); const bool wasDead=dead;
            try { op(what); if(wasDead&&what!=4&&what!=5&&what!=6) SIM_CHECK(false,"C15","call on a dead connection succeeded","operation %u succeeded after the connection had failed",what); }
            catch(const Pothos::Exception&e){ if(healthy) sim::violate(P14,"call failed on a healthy connection","operation %u of client %d: %s",what,tno,e.displayText().c_str()); dead=true; c.broken=true; sim::count("calls failed"); sim::note("client %d operation %u: %s",tno,what,e.displayText().c_str()); }
            catch(const std::exception&e){ sim::violate(P14,"unexpected exception type","operation %u of client %d: %s",what,tno,e.what()); }
            if(r.chance(1,6)) sim::sleep_ns(r.range(1,900000));
        }
    }
    void finish(){ while(!mine.empty()){ Held k=std::move(mine.back()); mine.pop_back(); c.drop(k); } cls=Pothos::Proxy(); env.reset(); }
};

// a datagram as it goes over the wire
std::string datagram(const std::string&payload,uint32_t len,bool trailer=true){ std::string s="PRPC"; for(int k=3;k>=0;k--) s.push_back((char)(len>>(8*k))); s+=payload; if(trailer) s+="CPRP"; return s; }
std::string request(const Pothos::ObjectKwargs&kw){ std::ostringstream os; Pothos::Object(kw).serialize(os); return datagram(os.str(),(uint32_t)os.str().size()); }
}

static void badPeer(LRng r,int kind)
{
    // a peer that does not follow the protocol; its session may end, nothing else may happen
    Link k(r,r.chance(1,2)); k.serve(); std::string bytes; Pothos::ObjectKwargs q; q["tid"]=Pothos::Object(uint32_t(5)); sim::count("bad peers");
    auto put=[&](const std::string&s){ bytes+=s; };
    const int n=(int)r.range(1,4);
    for(int i=0;i<n;i++){ Pothos::ObjectKwargs a=q; switch(r.below(15)){
        case 0: { std::string s; for(ull j=r.below(60);j>0;j--) s.push_back((char)r.next()); put(s); break; }             // garbage
        case 1: { std::string s; for(ull j=r.below(60);j>0;j--) s.push_back((char)r.next()); put(datagram(s,(uint32_t)s.size())); break; } // garbage in a frame
        case 2: put(datagram("",0)); break;
        case 3: put(datagram("abc",0x7fffffff+(uint32_t)r.below(1000))); break; // a frame that claims to be huge
        case 4: put(request(q)); break; // no action
        case 5: { Pothos::ObjectKwargs b; b["action"]=Pothos::Object("findProxy"); put(request(b)); break; } // no tid
        case 6: a["action"]=Pothos::Object("explode"); put(request(a)); break;
        case 7: a["action"]=Pothos::Object(42); put(request(a)); break;
        case 8: { static const char*const acts[]={"findProxy","convertObjectToProxy","convertProxyToObject","~RemoteProxyHandle","call","compareTo","hashCode","toString","getClassName"}; a["action"]=Pothos::Object(acts[r.below(9)]); a["envID"]=Pothos::Object(size_t(1000000+r.below(9))); a["handleID"]=Pothos::Object(size_t(1000000+r.below(9))); a["otherID"]=Pothos::Object(size_t(1000007)); a["name"]=Pothos::Object("x"); a["local"]=Pothos::Object(3); put(request(a)); break; } // unknown ids
        case 9: { static const char*const acts[]={"findProxy","convertObjectToProxy","convertProxyToObject","~RemoteProxyHandle","call","compareTo","hashCode","toString","getClassName","~RemoteProxyEnvironment","RemoteProxyEnvironment"}; a["action"]=Pothos::Object(acts[r.below(11)]); put(request(a)); break; } // missing arguments
        case 10: a["action"]=Pothos::Object("call"); a["handleID"]=Pothos::Object("not a number"); a["envID"]=Pothos::Object("neither"); put(request(a)); break;
        case 11: { std::ostringstream os; Pothos::Object(std::string("just a string")).serialize(os); put(datagram(os.str(),(uint32_t)os.str().size())); break; } // not a request at all
        case 12: a["action"]=Pothos::Object("RemoteProxyEnvironment"); a["name"]=Pothos::Object("no such environment"); put(request(a)); break;
        case 13: { a["action"]=Pothos::Object("hashCode"); std::string s=request(a); s[8+r.below(s.size()-12)]^=(char)(1u<<r.below(8)); put(s); break; }
        default: { a["action"]=Pothos::Object("getClassName"); std::string s=request(a); s.resize(r.below(s.size())); put(s); break; } } }
    std::thread reader([&]{ char b[64]; try { while(k.down.get(b,sizeof b)) {} } catch(...){} });
    if(r.chance(1,3)&&!bytes.empty()) bytes.resize(r.below(bytes.size())+1);
    size_t off=0; while(off<bytes.size()){ size_t w=k.up.put(bytes.data()+off,bytes.size()-off); if(!w) break; off+=w; if(r.chance(1,5)) sim::sleep_ns(r.range(1,600000)); }
    if(r.chance(1,3)) k.up.fail(); else k.up.end(); k.down.stopReading();
    k.server.join(); reader.join();
}
// a peer that releases a handle in one session while using it in another: its own problem, but the server must survive
static void rudePeer(LRng r)
{
    sim::count("rude peers"); Link a(r,false), b(r,false); a.serve(); b.serve(); int thing=MAXT-1-(int)r.below(1);
    {
        auto ea=Pothos::RemoteClient::makeEnvironment(a.csi(),a.cso(),"managed"); auto eb=Pothos::RemoteClient::makeEnvironment(b.csi(),b.cso(),"managed");
        auto t=ea->findProxy("SimRemote/Thing").call("make",thing);
        // find the id the server gave it: the request that releases it is on the wire when it is dropped, so speak the protocol directly
        Link d(r,false); d.serve(); std::thread reader([&]{ char x[64]; try { while(d.down.get(x,sizeof x)) {} } catch(...){} });
        const int how=(int)r.below(4); const ull ns=r.range(1,3000000);
        std::thread user([&]{ for(int i=0;i<6;i++) try { switch(how){ case 0: t.call("slow",ns); break; case 1: t.compareTo(t); break; case 2: t.toString(); t.hashCode(); break; default: t.getClassName(); ea->convertObjectToProxy(Pothos::Object(4)).toObject(); } } catch(const Pothos::Exception&){} });
        for(size_t id=1;id<40;id++){ Pothos::ObjectKwargs q; q["tid"]=Pothos::Object(uint32_t(9)); q["action"]=Pothos::Object("~RemoteProxyHandle"); q["handleID"]=Pothos::Object(id); std::string s=request(q); size_t off=0; while(off<s.size()){ size_t w=d.up.put(s.data()+off,s.size()-off); if(!w) break; off+=w; } if(r.chance(1,4)) sim::sleep_ns(r.range(1,200000)); }
        d.up.end(); user.join(); d.server.join(); reader.join();
    }
    a.closeClient(); b.closeClient(); a.server.join(); b.server.join();
}

SIM_WORLD(remote)
{
    using sim::param; sim::set_caps(400000,3000000);
    sim::enable_fault(sim::F_STREAM_FRAGMENT); sim::enable_fault(sim::F_STREAM_DELAY);
    Board bd; BD=&bd; LRng g(sim::rnd());
    const bool c15=sim::property_is("C15"), c16=sim::property_is("C16"), c17=sim::property_is("C17"), lost=c15||(c17&&param("lost",0,3)==3); // lost: one connection breaks
    const int nlinks=(int)param("sessions",1,c16?2:c17?2:3), nthreads=(int)param("threads",1,sim::property_is("C14")?4:3), nops=(int)param("operations",1,c17?24:16);
    if(c16) sim::set_alloc_limit(16u<<20); // a small machine: what a bad peer announces does not fit
    const bool waits=sim::property_is("C14")&&param("waits",0,2)==0; const int mode=lost?1:0; const bool single=param("iostream",0,1)==1; const int procs=c16?1:(int)param("processes",1,2);
    std::deque<Clients> pools; // clients that exchange references: all of them, or those of one connection when one of the connections will break
    if(c16&&param("rude",0,5)==0){ rudePeer(g); return; }
    std::vector<std::unique_ptr<Link>> links; for(int i=0;i<nlinks;i++) { links.emplace_back(new Link(g,single)); links.back()->proc=1+i%procs; }
    const int cutKind=lost?(int)param("cut",0,5):-1, cutLink=(int)g.below(nlinks); 
    if(lost){
        sim::enable_fault(sim::F_STREAM_CUT); auto&k=*links[cutLink]; const uint64_t at=(uint64_t)param("cutAt",0,6000); sim::fault(sim::F_STREAM_CUT,1,1);
        switch(cutKind){
        case 0: k.up.cutAt=at; break;                           // the server sees the end of the requests
        case 1: k.up.cutAt=at; k.up.cutIsReset=true; break;
        case 2: k.down.cutAt=at; break;                         // the client sees the end of the replies
        case 3: k.down.cutAt=at; k.down.cutIsReset=true; break;
        case 4: k.up.failWriteAt=at; break;                     // a write of the client fails, nothing else
        default: k.down.failWriteAt=at; break; }                // a write of the server fails
        // both directions of one connection go together, except for failed writes
        if(cutKind==2||cutKind==3) k.down.twin=&k.up; if(cutKind==0||cutKind==1) k.up.twin=nullptr;
    }
    for(int i=0;i<(mode?nlinks:1);i++){ pools.emplace_back(); pools.back().healthy=(mode==0||i!=cutLink); pools.back().nextThing=i*64; pools.back().limit=mode?i*64+64:MAXT; pools.back().nextReq=1+i*100000; }
    auto cl=[&](int i)->Clients&{ return pools[mode?i:0]; };
    for(auto&k:links) k->serve();
    std::vector<std::thread> th;
    if(c16) for(int i=(int)param("badPeers",1,3);i>0;i--){ LRng r(g.next()); th.emplace_back([r,i]{ badPeer(r,i); }); }
    std::vector<std::vector<std::unique_ptr<Client>>> clients(nlinks);
    std::vector<Pothos::ProxyEnvironment::Sptr> envs(nlinks); std::vector<bool> dead(nlinks,false);
    for(int i=0;i<nlinks;i++){
        try {
            Pothos::ProxyEnvironmentArgs args; if(g.chance(1,3)) args["zz"]=g.chance(1,2)?"":"v";
            envs[i]=Pothos::RemoteClient::makeEnvironment(links[i]->csi(),links[i]->cso(),"managed",args);
            SIM_CHECK(envs[i]->getPeeringAddress()=="10.1.2.3","C14 C15","value changed","peer address '%s'",envs[i]->getPeeringAddress().c_str());
            for(int t=0;t<nthreads;t++){ std::unique_ptr<Client> c(new Client(cl(i),envs[i],g.next(),i*8+t)); c->gates=mode==0; c->waits=c->gates&&waits; c->proc=links[i]->proc; c->cls=envs[i]->findProxy("SimRemote/Thing"); clients[i].push_back(std::move(c)); }
        }
        catch(const Pothos::Exception&e){ if(mode==0||i!=cutLink) sim::violate(P14,"call failed on a healthy connection","creating environment %d: %s",i,e.displayText().c_str()); dead[i]=true; sim::count("environments failed"); }
    }
    for(int i=0;i<nlinks;i++) envs[i].reset();
    for(int i=0;i<nlinks;i++) for(auto&c:clients[i]){ Client*p=c.get();
        th.emplace_back([=]{ p->run(nops); if(p->r.chance(1,2)) p->finish(); }); }
    for(auto&t:th) t.join();
    // whatever is left, dropped here in some order
    std::vector<Client*> rest; for(auto&v:clients) for(auto&c:v) rest.push_back(c.get());
    std::vector<std::pair<Held,Clients*>> left; for(auto&p:pools){ for(auto&h:p.shared) left.push_back({h,&p}); p.shared.clear(); }
    while(!rest.empty()||!left.empty()){ size_t i=g.below(rest.size()+left.size()); if(i<rest.size()){ rest[i]->finish(); rest.erase(rest.begin()+i); } else { i-=rest.size(); auto h=std::move(left[i]); left.erase(left.begin()+i); h.second->drop(h.first); } }
    for(auto&v:clients) v.clear();
    for(auto&k:links) k->closeClient();
    for(auto&k:links) k->server.join();
    for(int l=0;l<nlinks;l++) if(mode==0||l!=cutLink){
        for(int i=mode?l*64:0;i<(mode?l*64+64:MAXT);i++) SIM_CHECK(bd.t[i].made==bd.t[i].gone,"C17","remote object not released","thing %d made %d times, released %d times",i,bd.t[i].made,bd.t[i].gone);
        auto&k=links[l]; SIM_CHECK(k->ended=="done","C16 C14","session ended early","a well behaved session ended with: %s",k->ended.c_str());
    }
    if(mode==1) for(int i=cutLink*64;i<cutLink*64+64;i++) SIM_CHECK(bd.t[i].made==bd.t[i].gone,"C17","remote object not released","the connection was lost and its session has ended, but thing %d, made %d times, was released %d times",i,bd.t[i].made,bd.t[i].gone);
    for(auto&t:bd.touched) SIM_CHECK(t.second==1,"C16 C14","request not executed exactly once","request %llx ran %d times",t.first,t.second);
}
