// World "registry": threads add, remove, look up, list and dump plugins (C18, checked for linearizability against a map),
// install handlers and receive events (C19), and use conversions, comparisons, hashes, printing and managed classes while
// plugins of the same kind are loaded and unloaded (C20).
#include "common.hpp"
#include <Pothos/Object/Containers.hpp>
#include <unordered_set>

namespace {
using Pothos::PluginRegistry; using Pothos::PluginPath; using Pothos::Object;

//------------------------------------------------------------------------------------------------ C18
const char *const paths[]={"/simreg/a","/simreg/b","/simreg/a/x","/simreg/a/y","/simreg/b/x","/simreg/c/z/w"};
enum { NP=6 };
const char *const dirs[]={"/simreg","/simreg/a","/simreg/b","/simreg/c","/simreg/c/z","/simreg/nothing","/simreg/a/x"};
enum { ND=7 };
enum Kind { ADD, REMOVE, GET, EXISTS, EMPTY, LIST, DUMP };
const char *const kinds[]={"add","remove","get","exists","empty","list","dump"};
struct Op { Kind k; int path; int val; uint64_t inv,res; int out; std::set<std::string> names; std::vector<int> all; int thread; };
typedef std::vector<int> State; // plugin value per path, -1 when absent
bool below(const std::string&p,const std::string&d){ return p==d||(p.size()>d.size()&&p.compare(0,d.size(),d)==0&&p[d.size()]=='/'); }
// applies op to s; false when the recorded result is impossible in that state
bool apply(State&s,const Op&o)
{
    switch(o.k){
    case ADD: if(o.out){ if(s[o.path]>=0) return false; s[o.path]=o.val; return true; } return s[o.path]>=0;
    case REMOVE: if(o.out>=0){ if(s[o.path]!=o.out) return false; s[o.path]=-1; return true; } return s[o.path]<0;
    case GET: return o.out==s[o.path];
    case EMPTY: { for(int i=0;i<NP;i++) if(std::string(paths[i])==dirs[o.path]) return (o.out!=0)==(s[i]<0); return o.out!=0; }
    case EXISTS: { bool any=false; for(int i=0;i<NP;i++) if(s[i]>=0&&below(paths[i],dirs[o.path])) any=true; return (o.out!=0)==any; }
    case LIST: { std::set<std::string> want; for(int i=0;i<NP;i++) if(s[i]>=0){ std::string d=dirs[o.path],p=paths[i]; if(p!=d&&below(p,d)){ std::string rest=p.substr(d.size()+1); want.insert(rest.substr(0,rest.find('/'))); } } return want==o.names; }
    case DUMP: return o.all==s;
    }
    return false;
}
struct Lin
{
    const std::vector<Op>&h; std::set<std::pair<uint32_t,State>> seen; uint64_t visited=0;
    bool go(uint32_t done,State s)
    {
        if(done==(1u<<h.size())-1) return true;
        if(++visited>400000) return true; // undecided histories are not reported (none occur at these sizes)
        if(!seen.insert({done,s}).second) return false;
        uint64_t minRes=~0ull; for(size_t i=0;i<h.size();i++) if(!(done>>i&1)&&h[i].res<minRes) minRes=h[i].res;
        for(size_t i=0;i<h.size();i++) if(!(done>>i&1)&&h[i].inv<minRes){ State t(s); if(apply(t,h[i])&&go(done|1u<<i,t)) return true; }
        return false;
    }
};
void dumpWalk(const Pothos::PluginRegistryInfoDump&d,std::vector<int>&all){ for(int i=0;i<NP;i++) if(d.pluginPath==paths[i]&&!d.objectType.empty()) all[i]=atoi(d.objectType.c_str()); for(auto&s:d.subInfo) if(below(s.pluginPath,"/simreg")||s.pluginPath=="/") dumpWalk(s,all); }
void linearizable(int nt,int nops)
{
    const char*P="C18"; sim::set_heap_races(P); std::vector<Op> hist; std::mutex hm; std::atomic<uint64_t> clock(1); std::atomic<int> vals(1); State init(NP,-1);
    const bool dumps=sim::param("dumps",0,5)==5; std::vector<uint64_t> seeds; for(int i=0;i<nt;i++) seeds.push_back(sim::rnd());
    { LRng r(sim::rnd()); for(int i=0;i<NP;i++) if(r.chance(1,2)){ init[i]=vals++; PluginRegistry::add(paths[i],init[i]); } }
    std::vector<std::thread> th;
    for(int i=0;i<nt;i++) th.emplace_back([&,i]{
        LRng r(seeds[i]);
        for(int k=0;k<nops;k++){
            Op o; o.thread=i; o.out=-1; o.val=vals++; unsigned c=(unsigned)r.below(20); o.k=c<5?ADD:c<9?REMOVE:c<12?GET:c<14?EXISTS:c<16?EMPTY:c<19||!dumps?LIST:DUMP; o.path=(int)r.below((o.k==EXISTS||o.k==EMPTY||o.k==LIST)?ND:NP); o.inv=clock++;
            try { switch(o.k){
                case ADD: o.out=0; PluginRegistry::add(Pothos::Plugin(paths[o.path],Object(o.val))); o.out=1; break;
                case REMOVE: { auto p=PluginRegistry::remove(paths[o.path]); o.out=p.getObject().extract<int>(); SIM_CHECK(p.getPath().toString()==paths[o.path],P,"wrong plugin","remove(%s) returned the plugin of %s",paths[o.path],p.getPath().toString().c_str()); break; }
                case GET: { auto p=PluginRegistry::get(paths[o.path]); o.out=p.getObject().extract<int>(); SIM_CHECK(p.getPath().toString()==paths[o.path],P,"wrong plugin","get(%s) returned the plugin of %s",paths[o.path],p.getPath().toString().c_str()); break; }
                case EXISTS: o.out=PluginRegistry::exists(dirs[o.path]); break; case EMPTY: o.out=PluginRegistry::empty(dirs[o.path]); break;
                case LIST: { auto v=PluginRegistry::list(dirs[o.path]); for(auto&n:v) SIM_CHECK(o.names.insert(n).second,P,"listed twice","list(%s) contains %s twice",dirs[o.path],n.c_str()); break; }
                case DUMP: { o.all.assign(NP,-1); sim::quiet(true); auto d=PluginRegistry::dump(); sim::quiet(false); sim::NoSched g; dumpWalk(d,o.all); break; }
            } } catch(const Pothos::PluginRegistryError&){ SIM_CHECK(o.k==ADD||o.k==REMOVE||o.k==GET,P,"query failed","%s(%s) raised an error",kinds[o.k],dirs[o.path]); }
            o.res=clock++; std::lock_guard<std::mutex> g(hm); hist.push_back(o); sim::count(kinds[o.k]);
        } });
    for(auto&t:th) t.join();
    // the final state is part of the history
    for(int i=0;i<NP;i++){ Op o; o.k=GET; o.path=i; o.out=-1; o.thread=-1; o.inv=clock++; try { o.out=PluginRegistry::get(paths[i]).getObject().extract<int>(); } catch(const Pothos::PluginRegistryError&){} o.res=clock++; hist.push_back(o); }
    Lin l{hist,{},0}; sim::NoSched g; if(!l.go(0,init)){ std::string s; char b[160]; for(auto&o:hist){ const char*p=(o.k==EXISTS||o.k==EMPTY||o.k==LIST)?dirs[o.path]:paths[o.path]; std::string nm; for(auto&n:o.names) nm+=n+","; snprintf(b,sizeof b,"[%d..%d t%d %s %s=%d%s] ",(int)o.inv,(int)o.res,o.thread,kinds[o.k],p+7,o.k==ADD?(o.out?o.val:-1):o.out,nm.c_str()); s+=b; } sim::violate(P,"not linearizable","no sequential order explains: %s",s.c_str()); }
    sim::count("histories decided");
}
//------------------------------------------------------------------------------------------------ C19
struct Ev { std::string path,event; int val; uint64_t t; int thread; };
struct Handlers { std::vector<Ev> log[3]; uint64_t clock=1; bool probe=false; } *H;
int valueOf(const int&v){ return v; }
Object plugged(int v){ if(v%3) return Object(v); Pothos::Callable c(&valueOf); c.bind(v,0); return Object(c); } // some plugins are functions
int curVal(const Pothos::Plugin&p){ const auto&o=p.getObject(); if(!o) return -1; if(o.type()==typeid(Pothos::Callable)&&o.extract<Pothos::Callable>().type(-1)==typeid(int)) return o.extract<Pothos::Callable>().call<int>(); return o.type()==typeid(int)?o.extract<int>():-1; }
void record(int h,const Pothos::Plugin&p,const std::string&e){ { const int cv=curVal(p); const std::string ps=p.getPath().toString(); sim::NoSched g; H->log[h].push_back({ps,e,cv,H->clock++,sim::self()}); } if(H->probe){ bool ex=PluginRegistry::exists(p.getPath()); (void)ex; PluginRegistry::list("/simev"); } if(sim::fault(sim::F_HANDLER_THROW,1,5)){ if(h&1) throw std::runtime_error("handler fault"); throw Pothos::RuntimeException("handler fault"); } }
void h0(const Pothos::Plugin&p,const std::string&e){ record(0,p,e); } void h1(const Pothos::Plugin&p,const std::string&e){ record(1,p,e); } void h2(const Pothos::Plugin&p,const std::string&e){ record(2,p,e); }
void events(int nt,int nops)
{
    const char*P="C19"; sim::enable_fault(sim::F_HANDLER_THROW); H=new Handlers(); H->probe=sim::param("handlerQueries",0,1);
    const bool late=sim::param("lateHandler",0,1), gone=late&&sim::param("handlerRemoved",0,1); const int pre=(int)sim::param("present",0,4); std::vector<uint64_t> seeds; for(int i=0;i<nt;i++) seeds.push_back(sim::rnd()); const uint64_t wait=sim::rnd(400000);
    // h0 sits above everything, h1 directly above part of it from the start, h2 arrives (and may leave) while the others work
    PluginRegistry::addCall("/simev",&h0); PluginRegistry::addCall("/simev/s",&h1); std::vector<std::string> preset; for(int i=0;i<pre;i++){ std::string p="/simev/l/pre"+std::to_string(i); PluginRegistry::add(p,1000+i); preset.push_back(p); }
    if(sim::param("plainParent",0,1)) PluginRegistry::add("/simev/l/sub",int(5));
    { sim::NoSched g; for(auto&l:H->log) l.clear(); }
    uint64_t instStart=0,instEnd=0,remStart=0,remEnd=0; std::vector<std::thread> th; struct Done { std::string path; bool add; uint64_t inv,res; int val; }; std::vector<Done> done;
    for(int i=0;i<nt;i++) th.emplace_back([&,i]{
        LRng r(seeds[i]); std::map<std::string,int> mine; int v=(i+1)*100;
        static const char*const pre_[]={"/simev/","/simev/s/","/simev/l/","/simev/l/sub/","/simev/s/deep/er/"};
        for(int k=0;k<nops;k++){
            std::string p=pre_[r.below(5)]+std::string("t")+std::to_string(i)+"_"+std::to_string(r.below(2)); const bool add=!mine.count(p); Done d; d.path=p; d.add=add; d.val=add?v++:mine[p];
            size_t before[2]; { sim::NoSched g; d.inv=H->clock++; for(int h=0;h<2;h++) before[h]=H->log[h].size(); }
            try { if(add){ PluginRegistry::add(Pothos::Plugin(p,plugged(d.val))); mine[p]=d.val; } else { auto q=PluginRegistry::remove(p); SIM_CHECK(curVal(q)==d.val,P,"wrong plugin","remove(%s) returned value %d, not %d",p.c_str(),curVal(q),d.val); mine.erase(p); } }
            catch(const Pothos::Exception&e){ sim::violate(P,"operation broken by a handler","%s(%s) failed: %s",add?"add":"remove",p.c_str(),e.displayText().c_str()); }
            sim::NoSched g; d.res=H->clock++; done.push_back(d);
            // the handlers installed above saw exactly this event, before the call returned
            for(int h=0;h<2;h++){ const bool should=h==0||below(p,"/simev/s"); int n=0; for(size_t q=before[h];q<H->log[h].size();q++) if(H->log[h][q].path==p){ n++; SIM_CHECK(H->log[h][q].event==(add?"add":"remove")&&H->log[h][q].val==d.val,P,"wrong event","handler %d got event %s with value %d for %s(%s) of value %d",h,H->log[h][q].event.c_str(),H->log[h][q].val,add?"add":"remove",p.c_str(),d.val); } SIM_CHECK(n==(should?1:0),P,"event count","handler %d was called %d times for %s(%s)",h,n,add?"add":"remove",p.c_str()); }
            // a failing second registration tells nobody
            if(r.chance(1,5)){ bool threw=false; size_t b0=H->log[0].size(); sim::nosched_end(); try { if(mine.count(p)) PluginRegistry::add(p,-5); else PluginRegistry::remove(p); } catch(const Pothos::PluginRegistryError&){ threw=true; } sim::nosched_begin(); SIM_CHECK(threw,P,"not refused","a duplicate or unknown operation on %s was accepted",p.c_str()); for(size_t q=b0;q<H->log[0].size();q++) SIM_CHECK(H->log[0][q].path!=p,P,"event for a refused operation","handler called for a refused operation on %s",p.c_str()); }
        } });
    if(late) th.emplace_back([&]{
        sim::sleep_ns(wait); { sim::NoSched g; instStart=H->clock++; } PluginRegistry::addCall("/simev/l",&h2); { sim::NoSched g; instEnd=H->clock++; }
        if(gone){ sim::sleep_ns(wait/2); { sim::NoSched g; remStart=H->clock++; } PluginRegistry::remove("/simev/l"); { sim::NoSched g; remEnd=H->clock++; } } });
    for(auto&t:th) t.join();
    if(late){ sim::NoSched g; if(!gone) remStart=~0ull;
        for(auto&p:preset){ int n=0; for(auto&e:H->log[2]) if(e.path==p&&e.event=="add") n++; SIM_CHECK(n==1,P,"replay","a new handler was told %d times of %s, which was there before",n,p.c_str()); }
        for(auto&d:done) if(below(d.path,"/simev/l")){ int n=0; for(auto&e:H->log[2]) if(e.path==d.path&&e.event==(d.add?"add":"remove")&&e.val==d.val) n++;
            if(d.inv>instEnd&&d.res<remStart) SIM_CHECK(n==1,P,"event count","the handler installed later was called %d times for %s(%s)",n,d.add?"add":"remove",d.path.c_str());
            if(gone&&d.inv>remEnd) SIM_CHECK(n==0,P,"event after handler removal","a removed handler was called for %s(%s)",d.add?"add":"remove",d.path.c_str());
            // added before or during installation and still there when it finished
            if(d.add&&d.inv<instEnd&&d.res<remStart){ bool stays=true; for(auto&x:done) if(!x.add&&x.path==d.path&&x.val==d.val&&x.inv<instEnd) stays=false; if(stays) SIM_CHECK(n>=1,P,"plugin never announced","a handler being installed was never told of %s",d.path.c_str()); if(stays&&d.res<instStart) SIM_CHECK(n==1,P,"replay","a new handler was told %d times of %s",n,d.path.c_str()); } }
        for(auto&e:H->log[2]) SIM_CHECK(below(e.path,"/simev/l")&&e.path!="/simev/l",P,"foreign event","a handler for /simev/l was told of %s",e.path.c_str()); }
    delete H;
}
//------------------------------------------------------------------------------------------------ C20
struct A { int v=0; }; struct B { int v=0; }; struct C { int v=0; }; struct D { int v=0; }; struct E { int v=0; }; struct M { int n=0; };
B a2b(const A&a){ B b; b.v=a.v+1; return b; }
C b2c(const B&b,const int&k){ C c; c.v=b.v*1000+k; return c; }
D a2d(const A&a,const int&k){ D d; d.v=a.v*1000+k; return d; }
int cmp(const E&x,const E&y,const int&k){ return x.v==y.v?k:-1000-k; }
size_t hsh(const E&x,const int&k){ return (size_t)x.v*1000+k; }
std::string prn(const E&x,const int&k){ return "E"+std::to_string(x.v*1000+k); }
int mver(const M&m,const int&k){ return m.n*1000+k; }
struct Slot { int ver=0; bool stable=false, loaded=false; uint64_t epoch=0; int lo=0; }; // versions handed out so far: 1..ver
// an environment of our own: its values are exchanged by the registered proxy conversions
struct SimEnv: Pothos::ProxyEnvironment { std::string getName(void) const { return "simenv"; } Pothos::Proxy findProxy(const std::string&n){ throw Pothos::ProxyEnvironmentFindError("SimEnv",n); } void serialize(const Pothos::Proxy&,std::ostream&){} Pothos::Proxy deserialize(std::istream&){ return Pothos::Proxy(); } };
struct SimHandle: Pothos::ProxyHandle { Pothos::ProxyEnvironment::Sptr env; int v; std::string cls; SimHandle(Pothos::ProxyEnvironment::Sptr e,int v_,const char*c):env(e),v(v_),cls(c){} Pothos::ProxyEnvironment::Sptr getEnvironment(void) const { return env; } Pothos::Proxy call(const std::string&,const Pothos::Proxy*,const size_t){ throw Pothos::ProxyHandleCallError("SimHandle"); } int compareTo(const Pothos::Proxy&) const { return 0; } size_t hashCode(void) const { return 0; } std::string toString(void) const { return cls; } std::string getClassName(void) const { return cls; } };
int handleValue(const Pothos::Proxy&p){ return std::dynamic_pointer_cast<SimHandle>(p.getHandle())->v; }
Pothos::Proxy a2p(const Pothos::ProxyEnvironment::Sptr&e,const A&a,const int&k){ return Pothos::Proxy(new SimHandle(e,a.v*1000+k,"simA")); }
Pothos::Proxy b2p(const Pothos::ProxyEnvironment::Sptr&e,const B&b){ return Pothos::Proxy(new SimHandle(e,b.v,"simB")); }
A p2a(const Pothos::Proxy&p,const int&k){ A a; a.v=handleValue(p)*1000+k; return a; }
B p2b(const Pothos::Proxy&p){ B b; b.v=handleValue(p); return b; }
enum { S_CONV, S_DIRECT, S_CMP, S_HASH, S_STR, S_CLASS, S_TOPROXY, S_FROMPROXY, NS };
const char *const slotName[]={"conversion","direct conversion","comparison","hash","printing","managed class","conversion to a proxy","conversion from a proxy"};
void consistency(int nt,int nops)
{
    const char*P="C20"; sim::set_heap_races(P); Slot slot[NS]; const int ntog=1+(int)sim::param("loaders",0,2); std::vector<uint64_t> seeds; for(int i=0;i<8;i++) seeds.push_back(sim::rnd()); std::atomic<bool> stop(false);
    PluginRegistry::addCall("/object/convert/simtest/a_to_b",&a2b); PluginRegistry::addCall("/proxy/converters/simenv/b_to_proxy",&b2p); PluginRegistry::add("/proxy/converters/simenv/proxy_to_b",Pothos::ProxyConvertPair("simB",Pothos::Callable(&p2b)));
    auto load=[&](int s,int k){ Pothos::Callable c; switch(s){
        case S_CONV: c=Pothos::Callable(&b2c); c.bind(k,1); PluginRegistry::add("/object/convert/simtest/b_to_c",c); break; case S_DIRECT: c=Pothos::Callable(&a2d); c.bind(k,1); PluginRegistry::add("/object/convert/simtest/a_to_d",c); break;
        case S_CMP: c=Pothos::Callable(&cmp); c.bind(k,2); PluginRegistry::add("/object/compare/simtest/e_to_e",c); break; case S_HASH: c=Pothos::Callable(&hsh); c.bind(k,1); PluginRegistry::add("/object/hash/simtest/e",c); break;
        case S_STR: c=Pothos::Callable(&prn); c.bind(k,1); PluginRegistry::add("/object/tostring/simtest/e",c); break;
        case S_TOPROXY: c=Pothos::Callable(&a2p); c.bind(k,2); PluginRegistry::add("/proxy/converters/simenv/a_to_proxy",c); break; case S_FROMPROXY: c=Pothos::Callable(&p2a); c.bind(k,1); PluginRegistry::add("/proxy/converters/simenv/proxy_to_a",Pothos::ProxyConvertPair("simA",c)); break;
        default: c=Pothos::Callable(&mver); c.bind(k,1); Pothos::ManagedClass().registerClass<M>().registerConstructor<M>().registerMethod("version",c).commit("SimTest/M"); } };
    auto unload=[&](int s){ switch(s){ case S_CONV: PluginRegistry::remove("/object/convert/simtest/b_to_c"); break; case S_DIRECT: PluginRegistry::remove("/object/convert/simtest/a_to_d"); break; case S_CMP: PluginRegistry::remove("/object/compare/simtest/e_to_e"); break; case S_HASH: PluginRegistry::remove("/object/hash/simtest/e"); break; case S_STR: PluginRegistry::remove("/object/tostring/simtest/e"); break; case S_TOPROXY: PluginRegistry::remove("/proxy/converters/simenv/a_to_proxy"); break; case S_FROMPROXY: PluginRegistry::remove("/proxy/converters/simenv/proxy_to_a"); break; default: Pothos::ManagedClass::unload("SimTest/M"); } };
    for(int s=0;s<NS;s++) slot[s].stable=true;
    std::vector<std::thread> th, tog;
    for(int i=0;i<ntog;i++) tog.emplace_back([&,i]{ LRng r(seeds[i]); for(int k=0;k<nops;k++){ int s=(int)r.below(NS); if(s%ntog!=i) continue; Slot&q=slot[s]; { sim::NoSched g; q.stable=false; q.epoch++; if(!q.loaded) q.ver++; } if(!q.loaded) load(s,q.ver); else unload(s); { sim::NoSched g; q.loaded=!q.loaded; if(q.loaded) q.lo=q.ver; q.stable=true; q.epoch++; } sim::count(q.loaded?"loads":"unloads"); if(r.chance(1,2)) sim::sleep_ns(r.below(100000)); } });
    for(int i=0;i<nt;i++) th.emplace_back([&,i]{
        LRng r(seeds[3+i]); auto env=Pothos::ProxyEnvironment::make("managed"); Pothos::ProxyEnvironment::Sptr senv(new SimEnv());
        for(int k=0;k<nops*2&&!stop;k++){
            const int s=(int)r.below(NS); Slot b; { sim::NoSched g; b=slot[s]; } const int v=1+(int)r.below(50); int got=0; /*0: none*/ bool odd=false; bool can=true, canKnown=false; std::string err;
            try { switch(s){
                case S_CONV: { A a; a.v=v; if(r.chance(1,2)){ B m; m.v=v+1; if(r.chance(1,2)){ can=Object(m).canConvert(typeid(C)); canKnown=true; } else { C c=Object(m).convert<C>(); got=c.v%1000; odd=c.v/1000!=v+1; } } else { C c=Object(a).convert<C>(); got=c.v%1000; odd=c.v/1000!=v+1; } break; }
                case S_DIRECT: { A a; a.v=v; if(r.chance(1,3)){ can=Object::canConvert(typeid(A),typeid(D)); canKnown=true; } else { D d=Object(a).convert<D>(); got=d.v%1000; odd=d.v/1000!=v; } break; }
                case S_CMP: { E x,y; x.v=y.v=v; int q=Object(x).compareTo(Object(y)); got=q; odd=q<0; break; }
                case S_HASH: { E x; x.v=v; Object o(x); size_t q=o.hashCode(); if(q>10000000){ got=0; } else { got=(int)(q%1000); odd=(int)(q/1000)!=v; } break; }
                case S_STR: { E x; x.v=v; std::string q=Object(x).toString(); if(q.empty()||q[0]!='E'){ got=0; odd=q.find('<')!=0; } else { int w=atoi(q.c_str()+1); got=w%1000; odd=w/1000!=v; } break; }
                case S_TOPROXY: { A x; x.v=v; auto q=senv->convertObjectToProxy(Object(x)); got=handleValue(q)%1000; odd=handleValue(q)/1000!=v||q.getEnvironment()!=senv; break; }
                case S_FROMPROXY: { Object o=senv->convertProxyToObject(Pothos::Proxy(new SimHandle(senv,v,"simA"))); const int q=o.extract<A>().v; got=q%1000; odd=q/1000!=v; break; }
                default: { M m; m.n=v; if(r.chance(1,3)){ Pothos::ManagedClass::lookup(typeid(M)); got=-1; } else { auto px=env->makeProxy(m); int q=px.call<int>("version"); got=q%1000; odd=q/1000!=v; } } }
            }
            catch(const Pothos::ObjectConvertError&e){ err=e.displayText(); got=0; odd=s!=S_CONV&&s!=S_DIRECT&&s!=S_CLASS; }
            catch(const Pothos::ObjectCompareError&e){ err=e.displayText(); got=0; odd=s!=S_CMP; }
            catch(const Pothos::ProxyEnvironmentConvertError&e){ err=e.displayText(); got=0; odd=s!=S_TOPROXY&&s!=S_FROMPROXY; }
            catch(const Pothos::Exception&e){ err=e.displayText(); got=0; odd=s!=S_CLASS; }
            Slot a; { sim::NoSched g; a=slot[s]; }
            SIM_CHECK(!odd,P,"wrong result","%s gave a wrong result%s%s",slotName[s],err.empty()?"":": ",err.c_str());
            const bool calm=b.stable&&a.epoch==b.epoch; sim::count(calm?"settled lookups":"concurrent lookups");
            if(canKnown){ if(calm) SIM_CHECK(can==b.loaded,P,"canConvert wrong","canConvert says %d while the conversion is %s",(int)can,b.loaded?"loaded":"not loaded"); continue; }
            if(calm){ if(b.loaded) SIM_CHECK(got==b.lo||(got==-1&&s==S_CLASS),P,"loaded function not used","%s: version %d is loaded, the result came from %d (%s)",slotName[s],b.lo,got,err.c_str()); else SIM_CHECK(got==0,P,"unloaded function used","%s: nothing is loaded, the result came from version %d",slotName[s],got); }
            else if(got>0) SIM_CHECK(got>=b.lo&&got<=a.ver,P,"stale function used","%s: result came from version %d, versions %d to %d were loaded meanwhile",slotName[s],got,b.lo,a.ver);
            // unrelated, permanently loaded functions always work
            switch(r.below(5)){ case 4: { B x; x.v=v; auto q=senv->convertObjectToProxy(Object(x)); SIM_CHECK(handleValue(q)==v&&senv->convertProxyToObject(q).extract<B>().v==v,P,"wrong result","a permanent proxy conversion changed %d",v); break; } case 0: { A x; x.v=v; B y=Object(x).convert<B>(); SIM_CHECK(y.v==v+1,P,"wrong result","a permanent conversion gave %d for %d",y.v,v); break; } case 1: SIM_CHECK(Object(v).convert<double>()==v,P,"wrong result","int to double gave a wrong number"); break; case 2: SIM_CHECK(Object(v).compareTo(Object(v+1))<0&&Object(std::string("a")).equals(Object(std::string("a"))),P,"wrong result","a permanent comparison is wrong"); break; default: SIM_CHECK(Object(v).toString()==std::to_string(v),P,"wrong result","printing a number is wrong"); }
        } });
    for(auto&t:tog) t.join();
    stop=true; for(auto&t:th) t.join();
}
}
SIM_WORLD(registry)
{
    sim::set_caps(600000,3000000); int mode=(int)sim::param("mode",0,2);
    if(sim::property_is("C18")) mode=0; if(sim::property_is("C19")) mode=1; if(sim::property_is("C20")) mode=2;
    if(mode==0) linearizable((int)sim::param("threads",2,4),(int)sim::param("ops",1,5)); else if(mode==1) events((int)sim::param("threads",1,3),(int)sim::param("ops",1,8)); else consistency((int)sim::param("threads",1,3),(int)sim::param("ops",2,14));
}
