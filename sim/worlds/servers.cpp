// World "servers" (C35): RemoteServer handles and the proxy server processes behind them (the real PothosUtil proxy server and the
// real Poco TCP server) over simulated processes, pipes and network.
// uses: net.cpp proc.cpp
#include "common.hpp"
#include "net.hpp"
#include "proc.hpp"
#include <Pothos/Remote.hpp>
#include <Pothos/Init.hpp>
#include <Poco/ThreadPool.h>
#include <Poco/Util/ServerApplication.h>
#include <Poco/Util/MapConfiguration.h>
#include <iostream>
#include <signal.h>

namespace Pothos { struct SimNoInit { SimNoInit(){} ~SimNoInit(){} }; } // the simulated processes share one initialised library
#define ScopedInit SimNoInit
#include <apps/PothosUtilProxyServer.cpp>
#undef ScopedInit

namespace {
const char*const P="C35";
enum { MAXP=30, PIDBASE=500000 };
struct Kid
{
    int p=0,pid=0; std::thread th; std::atomic<bool> ended{false},sig{false},crashed{false}; int outW=-1,errW=-1; bool requireActive=false; std::string uri; std::atomic<int> held{0};
    std::vector<std::string> said[2];
};
std::deque<Kid> K; Kid*running[MAXP+1]; bool quietRun; std::atomic<int> early{0};
// a thread that got no processor for long may run into a time limit: as good as a fault
void starved(const Pothos::Exception&e){ if(e.displayText().find("Timeout")!=std::string::npos){ sim::NoSched n; quietRun=false; sim::count("timeouts of starved threads"); } }
Kid*mine(){ sim::NoSched n; const int p=sim::process(); return p>0&&p<=MAXP?running[p]:nullptr; }
Kid*kid(int pid){ for(auto&k:K) if(k.pid==pid) return &k; return nullptr; }
// what a process prints goes to its pipe, a line at a time
struct Dev : std::streambuf
{
    int which; Dev(int w):which(w){} static std::string &buf(int w){ static thread_local std::string b[2]; return b[w]; }
    std::streamsize xsputn(const char*s,std::streamsize n) override { buf(which).append(s,(size_t)n); return n; }
    int overflow(int c) override { if(c!=EOF) buf(which).push_back((char)c); return 0; }
    int sync() override { std::string t; t.swap(buf(which)); Kid*k=mine(); if(!k||k->crashed||k->ended) return 0;
        sim::NoSched n; size_t at=0; while(at<t.size()){ size_t e=t.find('\n',at); std::string l=t.substr(at,e==std::string::npos?e:e-at); at=e==std::string::npos?t.size():e+1; if(!l.empty()) k->said[which].push_back(l); sim::note("server %d prints: %s",k->pid,l.c_str()); }
        const int fd=which?k->errW:k->outW; if(fd>=0&&!t.empty()) sim::proc::pipe_write(fd,t.data(),t.size()); return 0; } // the pipe has room for everything a run prints
};
struct PerProcess : Poco::Util::MapConfiguration { bool getRaw(const std::string&key,std::string&value) const override { if(key!="requireActive") return false; Kid*k=mine(); if(!k||!k->requireActive) return false; value=""; return true; } };
PothosUtilBase*app=nullptr; Poco::ThreadPool*pools[MAXP+1];
void endProcess(Kid&k)
{
    sim::net::exit_process(k.p); Poco::ThreadPool*tp=pools[k.p]; if(tp){ tp->joinAll(); delete tp; pools[k.p]=nullptr; }
    sim::net::exit_process(k.p); sim::NoSched n; running[k.p]=nullptr; k.ended=true;
    if(k.outW>=0) sim::proc::pipe_close(k.outW); if(k.errW>=0) sim::proc::pipe_close(k.errW);
}
void kidMain(Kid*k,uint64_t seed)
{
    LRng r(seed); sim::set_process(k->p); { sim::NoSched n; sim::kern::node_of[k->p]=1; sim::kern::pid_of[k->p]=k->pid; }
    if(r.chance(1,2)) sim::sleep_ns(r.below(40000000));
    for(int i=(int)r.below(4);i>0;i--){ std::ostream&o=r.chance(1,2)?std::cout:std::cerr; o<<"starting up "+std::to_string(i)+"\n"+(r.chance(1,4)?"\n":""); o.flush(); }
    if(sim::fault(sim::F_CHILD_CRASH,1,8)){ endProcess(*k); return; }
    std::atomic<bool> over{false}; std::thread chatter; const uint64_t cs=r.next(); if(r.chance(1,3)) chatter=std::thread([&over,cs]{ LRng q(cs); for(int i=(int)q.range(1,8);i>0&&!over;i--){ if(q.chance(1,2)) sim::sleep_ns(q.below(60000000)); std::ostream&o=q.chance(1,2)?std::cout:std::cerr; o<<"busy "+std::to_string(i)+"\n"; o.flush(); } });
    struct Join { std::atomic<bool>&o; std::thread&t; ~Join(){ o=true; if(t.joinable()) t.join(); } };
    { Join join{over,chatter};
    try { app->proxyServer("",k->uri); if(!k->sig&&!k->crashed) sim::violate(P,"harness: server returned","without a signal"); }
    catch(const Poco::Exception&e){ std::cerr<<"server "+std::to_string(k->pid)+" failed: "+e.displayText()+"\n"; std::cerr.flush(); }
    catch(const Pothos::Exception&e){ std::cerr<<"server "+std::to_string(k->pid)+" failed: "+e.displayText()+"\n"; std::cerr.flush(); }
    }
    { sim::NoSched n; SIM_CHECK(k->crashed||k->held==0||!quietRun,P,"server ended while in use","the server process %d has ended although a handle to it exists",k->pid); }
    endProcess(*k);
}
int hookLaunch(int pid,const char*,const std::vector<std::string>&args,int outW,int errW)
{
    Kid*k; int p=0; { sim::NoSched n; for(int i=1;i<=MAXP&&!p;i++) if(!running[i]) p=i; if(!p) return EAGAIN; K.emplace_back(); k=&K.back(); running[p]=k; }
    k->p=p; k->pid=pid; k->outW=outW; k->errW=errW; for(auto&a:args){ if(a=="--require-active") k->requireActive=true; if(a.compare(0,15,"--proxy-server=")==0) k->uri=a.substr(15); }
    const uint64_t sd=sim::rnd(); k->th=std::thread([k,sd]{ kidMain(k,sd); }); sim::count("servers launched"); return 0;
}
int hookWait(int pid){ Kid*k; { sim::NoSched n; k=kid(pid); } while(!k->ended) sim::sleep_ns(300000); return k->crashed?9:0; }
void hookSignal(int pid,int){ sim::NoSched n; Kid*k=kid(pid); if(k) k->sig=true; }
void crash(Kid&k){ { sim::NoSched n; if(k.ended||k.crashed) return; k.crashed=true; k.sig=true; } sim::fault(sim::F_CHILD_CRASH,1,1); sim::net::exit_process(k.p); }

struct Who {
    static int pid(void){ Kid*k=mine(); return k?k->pid:0; }
    static void say(int w,const std::string&s){ std::ostream&o=w?std::cerr:std::cout; std::string t=s+"\n"; o<<t; o.flush(); }
};
static auto managedWho=Pothos::ManagedClass().registerClass<Who>().registerStaticMethod("pid",&Who::pid).registerStaticMethod("say",&Who::say).commit("SimServers/Who");

struct Log { int port; std::vector<std::string> got; }; std::deque<Log> logs;
void datagram(int port,const char*b,size_t n,bool lost){ sim::note("datagram to %d: %.*s%s",port,(int)n,b,lost?" (lost)":""); for(auto&l:logs) if(l.port==port){ l.got.push_back(std::string(b,n)); sim::count(lost?"lines not sent":"lines forwarded"); } } // one that cannot be sent is gone, the next one is tried again

struct Handle { Pothos::RemoteServer s; Kid*k=nullptr; std::string host; bool open=false; };
Kid*byPort(int port){ for(auto&k:K) if(!k.ended&&running[k.p]==&k&&sim::net::listen_port(k.p)==port) return &k; return nullptr; }
int lastFixed=0;
// a new server, or the reason why there is none
bool make(LRng&r,Handle&h,const std::vector<Handle>&others)
{
    static const char*const hosts[]={"0.0.0.0","[::]","127.0.0.1","[::1]","node0.sim"}; const int hi=(int)r.below(5); h.host=hosts[hi]; std::string uri="tcp://"+h.host; enum { GOOD, BAD, TAKEN } kind=GOOD; int fixed=0;
    if(r.chance(1,5)){ sim::NoSched n; fixed=6000+lastFixed++; uri+=":"+std::to_string(fixed); }
    else if(r.chance(1,8)){ static const char*const bad[]={"udp://0.0.0.0","tcp://nosuchhost.sim","tcp://10.1.1.1","0.0.0.0","tcp//","tcp://0.0.0.0:port"}; uri=bad[r.below(6)]; kind=BAD; }
    else if(!others.empty()&&r.chance(1,6)){ const Handle&o=others[r.below(others.size())]; uri="tcp://"+o.host+":"+o.s.getActualPort(); kind=TAKEN; }
    const bool closePipes=r.chance(1,2); size_t k0; { sim::NoSched n; k0=K.size(); } const uint64_t rs0=sim::net::resets();
    try { h.s=Pothos::RemoteServer(uri,closePipes); }
    catch(const Pothos::Exception&e){
        sim::count("servers not started"); starved(e); if(kind==GOOD&&quietRun) sim::violate(P,"server not started","RemoteServer(%s) failed without a fault: %s",uri.c_str(),e.displayText().c_str());
        if(kind==TAKEN&&quietRun){ std::string t=e.displayText(); SIM_CHECK(t.find("failed: ")!=std::string::npos&&t.find("server ")!=std::string::npos,P,"error message lost","RemoteServer(%s) failed with '%s', which does not tell what the server printed",uri.c_str(),t.c_str()); }
        return false; }
    catch(const std::exception&e){ sim::violate(P,"unexpected exception type","RemoteServer(%s): %s",uri.c_str(),e.what()); }
    if(kind==BAD||(kind==TAKEN&&quietRun)) sim::violate(P,"bad server accepted","RemoteServer(%s) did not fail",uri.c_str());
    SIM_CHECK(bool(h.s)&&h.s.getUri()==uri,P,"wrong uri","a server for %s says %s",uri.c_str(),h.s.getUri().c_str()); const int port=atoi(h.s.getActualPort().c_str());
    { sim::NoSched n; h.k=byPort(port); if(h.k) h.k->held++; } h.open=!closePipes; sim::count("servers started");
    if(quietRun){ SIM_CHECK(h.k,P,"wrong port","nothing listens on the port %d that RemoteServer(%s) reports",port,uri.c_str()); SIM_CHECK(!fixed||port==fixed,P,"wrong port","asked for port %d, got %d",fixed,port); }
    (void)k0; (void)rs0; return true;
}
std::string clientUri(const Handle&h){ std::string a=h.host; if(a=="0.0.0.0") a="127.0.0.1"; if(a=="[::]") a="[::1]"; return "tcp://"+a+":"+h.s.getActualPort(); }
// connect like any other user and do something; returns whether it worked
bool use(LRng&r,const Handle&h,std::vector<Pothos::ProxyEnvironment::Sptr>*keep)
{
    sim::count("servers used");
    try {
        Pothos::RemoteClient c(clientUri(h),5000000); if(r.chance(1,3)) return true;
        auto env=c.makeEnvironment("managed"); if(r.chance(1,2)) c=Pothos::RemoteClient();
        const int pid=env->findProxy("SimServers/Who").call<int>("pid"); SIM_CHECK(!h.k||pid==h.k->pid,P,"another process answers","a client of server %d got an answer from %d",h.k->pid,pid);
        if(h.open&&r.chance(1,2)) for(int i=(int)r.range(1,3);i>0;i--){ static std::atomic<int> no{0}; const int w=(int)r.below(2); env->findProxy("SimServers/Who").call("say",w,"line "+std::to_string(no++)+(r.chance(1,4)?" error":"")); sim::count("lines printed"); }
        if(keep&&r.chance(1,3)) keep->push_back(env);
        return true;
    }
    catch(const Pothos::Exception&e){ starved(e); if(quietRun&&h.k&&h.k->held>0) sim::violate(P,"server not usable","a client of server %d at %s failed without a fault: %s",h.k->pid,clientUri(h).c_str(),e.displayText().c_str()); return false; }
}
void drop(Handle&h)
{
    Kid*k=h.k; bool last; { sim::NoSched n; last=k&&--k->held==0; } h.s=Pothos::RemoteServer();
    if(last){ sim::NoSched n; SIM_CHECK(k->ended,P,"server outlives its handles","the last handle to server %d is gone, its process is not",k->pid); }
    h.k=nullptr;
}
void user(uint64_t seed,int nops,int logPort)
{
    LRng r(seed); std::vector<Handle> hs; std::vector<Pothos::ProxyEnvironment::Sptr> envs; std::vector<Pothos::Proxy> nested;
    for(int n=0;n<nops;n++){
        const int op=(int)r.below(12); Handle*h=hs.empty()?nullptr:&hs[r.below(hs.size())];
        if(!h||(op<3&&hs.size()<4)){ Handle x; if(make(r,x,hs)){ hs.push_back(x); if(r.chance(1,3)) use(r,x,nullptr); if(r.chance(1,8)) try { x.s.startSyslogForwarding("127.0.0.1:9999","any"); } catch(const Pothos::Exception&){} } }
        else if(op<6) use(r,*h,&envs);
        else if(op==6&&hs.size()<6){ Handle c=*h; { sim::NoSched q; if(c.k) c.k->held++; } hs.push_back(c); }
        else if(op<9){ const size_t i=(size_t)(h-&hs[0]); Handle x=*h; hs.erase(hs.begin()+(long)i); drop(x); }
        else if(op==9&&!envs.empty()) envs.erase(envs.begin()+(long)r.below(envs.size()));
        else if(op==10&&!envs.empty()&&nested.size()<2){ try { nested.push_back(envs[r.below(envs.size())]->findProxy("Pothos/RemoteServer")("tcp://0.0.0.0")); sim::count("servers of servers"); const std::string p=nested.back().call("getActualPort"); if(quietRun) SIM_CHECK(atoi(p.c_str())>0,P,"wrong port","%s",p.c_str()); } catch(const Pothos::Exception&){ } }
        else if(op==11&&!nested.empty()) try { nested.pop_back(); } catch(const Pothos::Exception&){}
        (void)logPort;
    }
    while(!hs.empty()){ Handle x=hs.back(); hs.pop_back(); if(r.chance(1,2)) use(r,x,nullptr); drop(x); }
    nested.clear(); envs.clear();
}
// one server whose output is forwarded: everything it prints arrives, in order
void forwarding(uint64_t seed,int port)
{
    LRng r(seed); Log*log; { sim::NoSched n; logs.emplace_back(); log=&logs.back(); log->port=port; } Handle h; h.host="127.0.0.1"; Kid*k;
    try { h.s=Pothos::RemoteServer("tcp://127.0.0.1",false); } catch(const Pothos::Exception&e){ starved(e); if(quietRun) sim::violate(P,"server not started","RemoteServer failed without a fault: %s",e.displayText().c_str()); return; }
    { sim::NoSched n; h.k=k=byPort(atoi(h.s.getActualPort().c_str())); if(k) k->held++; } h.open=true;
    try { if(r.chance(1,3)) use(r,h,nullptr); h.s.startSyslogForwarding("127.0.0.1:"+std::to_string(port),"srv"); if(r.chance(1,6)) try { h.s.startSyslogForwarding("127.0.0.1:"+std::to_string(port),"srv"); } catch(const Pothos::Exception&){} for(int i=(int)r.below(4);i>0;i--) use(r,h,nullptr); if(r.chance(1,4)) sim::sleep_ns(r.below(300000000)); }
    catch(const Pothos::Exception&e){ starved(e); if(quietRun) sim::violate(P,"forwarding failed","%s",e.displayText().c_str()); }
    drop(h); if(!quietRun||!k) return;
    sim::NoSched n; for(int w=0;w<2;w++){
        std::vector<std::string> want; bool after=w==1; for(auto&l:k->said[w]){ if(after) want.push_back(l); if(l.compare(0,5,"Port:")==0) after=true; }
        size_t at=0; for(auto&g:log->got) if(at<want.size()&&g.size()>=want[at].size()&&g.compare(g.size()-want[at].size(),want[at].size(),want[at])==0) at++;
        SIM_CHECK(at==want.size(),P,"output lost","%s of server %d: '%s' (line %zu of %zu) was not forwarded, %zu messages were",w?"stderr":"stdout",k->pid,want[at].c_str(),at,want.size(),log->got.size()); }
}
}
namespace Poco { ThreadPool &ThreadPool::defaultPool(){ int p=sim::process(); if(p<0||p>MAXP) p=0; { sim::NoSched n; if(pools[p]) return *pools[p]; } ThreadPool*t=new ThreadPool("default"); pools[p]=t; return *t; } }
void Poco::Util::ServerApplication::waitForTerminationRequest(){ Kid*k=mine(); while(k&&!k->sig) sim::sleep_ns(500000); }

SIM_WORLD(servers)
{
    using sim::param; using namespace sim; sim::set_caps(800000,4000000); sim::set_free_races(nullptr); // Poco counts references out of sight
    K.clear(); logs.clear(); LRng g(sim::rnd());
    const int nt=(int)param("users",1,3), nops=(int)param("ops",1,8), nf=(int)param("forwarded",0,2), faults=(int)param("faults",0,2), crashes=(int)param("crashes",0,3), orphans=(int)param("orphans",0,1);
    quietRun=faults<2; for(auto k:{F_EINTR,F_NET_FRAGMENT,F_NET_DELAY,F_STREAM_FRAGMENT,F_SEND_FAIL}) enable_fault(k); if(!quietRun) for(auto k:{F_LAUNCH_FAIL,F_CHILD_CRASH,F_CONN_RESET,F_BIND_FAIL}) enable_fault(k);
    if(param("stalls",0,3)==3) sim::enable_stalls(2000,50000000ull);
    sim::quiet(true);
    Dev dout(0),derr(1); std::streambuf*o=std::cout.rdbuf(&dout),*e=std::cerr.rdbuf(&derr); app=new PothosUtilBase; app->config().add(new PerProcess,-200,false);
    sim::net::enable(true); sim::net::add_host("node0.sim","10.0.0.10"); sim::kern::node_of[0]=1; sim::net::on_datagram=&datagram;
    sim::proc::Hooks h{&hookLaunch,&hookWait,&hookSignal,nullptr,nullptr}; sim::proc::enable(h);
    sim::quiet(false);
    std::vector<std::thread> th; for(int t=0;t<nt;t++){ const uint64_t sd=g.next(); th.emplace_back([=]{ user(sd,nops,0); }); }
    for(int t=0;t<nf;t++){ const uint64_t sd=g.next(); th.emplace_back([=]{ forwarding(sd,9000+t); }); }
    if(!quietRun&&crashes){ const uint64_t sd=g.next(); th.emplace_back([=]{ LRng r(sd); for(int i=0;i<crashes;i++){ sim::sleep_ns(r.below(400000000)); Kid*k=nullptr; { NoSched n; for(auto&x:K) if(!x.ended&&!x.crashed&&r.chance(1,3)) k=&x; } if(k) crash(*k); } }); }
    if(orphans){ const uint64_t sd=g.next(); th.emplace_back([=]{ LRng r(sd); int p=0; static Kid other; { NoSched n; for(int i=1;i<=MAXP;i++) if(!running[i]){ p=i; running[i]=&other; break; } } sim::set_process(p); kern::node_of[p]=1; // a process that creates a server and then dies
        Pothos::RemoteServer*s=nullptr; try { s=new Pothos::RemoteServer("tcp://127.0.0.1"); } catch(const Pothos::Exception&){ } if(r.chance(1,2)) sim::sleep_ns(r.below(5000000)); sim::net::exit_process(p);
        if(s){ Kid*k; { NoSched n; k=byPort(atoi(s->getActualPort().c_str())); } for(int i=0;k&&!k->ended&&i<2000;i++) sim::sleep_ns(10000000); SIM_CHECK(!k||k->ended,P,"orphaned server","the process that created server %d is gone, the server is still there 20 s later",k->pid); sim::count("creators died"); delete s; } }); }
    for(auto&t:th) t.join();
    sim::faults_off();
    for(auto&k:K){ for(int i=0;!k.ended&&i<3000;i++) sim::sleep_ns(10000000); SIM_CHECK(k.ended,P,"server left behind","server process %d (%s) is still there after everything has been dropped",k.pid,k.uri.c_str()); k.th.join(); }
    SIM_CHECK(sim::proc::unreaped()==0,P,"child processes left","%zu server processes were never waited for",sim::proc::unreaped());
    SIM_CHECK(sim::proc::open_pipes()==0,P,"pipes leaked","%zu pipe ends are still open",sim::proc::open_pipes());
    SIM_CHECK(sim::net::open_sockets()==0,P,"sockets leaked","%zu sockets are still open",sim::net::open_sockets());
    SIM_CHECK(sim::net::open_epolls()==0,P,"sockets leaked","%zu poll sets are still open",sim::net::open_epolls());
    sim::proc::disable(); sim::net::enable(false); std::cout.rdbuf(o); std::cerr.rdbuf(e);
}
