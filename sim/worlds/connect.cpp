// World "connect" (C24): the real RemoteClient over a simulated name service and network, with servers behind simulated sockets.
// uses: net.cpp
#include "common.hpp"
#include "net.hpp"
#include <Pothos/Remote.hpp>
#include <Poco/Net/StreamSocket.h>
#include <Poco/Net/StreamSocketImpl.h>
#include <Poco/Net/SocketStream.h>

namespace {
const char*const P="C24";
thread_local int servedHost=-1; int machines=0;
struct Who { static int ask(int v){ SIM_CHECK(servedHost>=0,P,"harness: unserved","no host"); return servedHost*1000+v; } };
static auto managedWho=Pothos::ManagedClass().registerClass<Who>().registerStaticMethod("ask",&Who::ask).commit("SimConnect/Who");
enum { MAXH=3 };
struct HostState { int dns=0,tcp=0; uint64_t dnsDelay=0,tcpDelay=0; uint64_t epoch=0; uint64_t cleanSince=0; bool bad=false; bool clean() const { return !bad; } } HS[MAXH];
std::string hostName(int h){ return "node"+std::to_string(h)+".sim"; }
std::string hostIp(int h){ return "10.0.0."+std::to_string(10+h); }
void apply(int h,int dns,uint64_t dd,int tcp,uint64_t td)
{
    sim::NoSched n; HostState&s=HS[h]; s.dns=dns; s.tcp=tcp; s.dnsDelay=dd; s.tcpDelay=td; s.epoch++;
    const bool bad=dns||tcp||dd>50000000||td>50000000; if(s.bad&&!bad) s.cleanSince=sim::now_ns(); s.bad=bad;
    sim::net::set_dns(h,dns,dd); sim::net::set_tcp(h,tcp,td);
}
struct Server
{
    int h,port; std::thread acceptor; std::mutex m; std::vector<std::thread> sessions;
    Server(int h_,int p):h(h_),port(p){ sim::net::listen(h,port); acceptor=std::thread([this]{ loop(); }); }
    void loop(){ for(;;){ char peer[64]; int fd=sim::net::accept(h,port,peer,sizeof peer); if(fd<0) return; std::string pa(peer); const int hh=h, pr=1+2*h+(int)(sessions.size()&1); // what answers at a host is a machine never seen before
        std::lock_guard<std::mutex> l(m); sessions.emplace_back([fd,pa,hh,pr]{ servedHost=hh; sim::set_process(pr); { sim::NoSched n; sim::kern::node_of[pr]=++machines; } try { Poco::Net::StreamSocket sock(new Poco::Net::StreamSocketImpl(fd)); Poco::Net::SocketStream io(sock); Pothos::RemoteHandler handler(pa); handler.runHandler(io,io); } catch(...){} }); } }
    void stop(){ sim::net::unlisten(h,port); acceptor.join(); for(auto&t:sessions) t.join(); }
};
std::atomic<uint64_t> okCount{0}; bool stallsOn=false;

// one attempt; returns whether it gave a working connection
bool attempt(LRng&r,int h,long timeoutUs,bool mustWork)
{
    sim::count("connection attempts");
    const bool byIp=r.chance(1,6), defPort=h==0&&r.chance(1,2);
    std::string uri="tcp://"+(byIp?hostIp(h):hostName(h)); if(!defPort) uri+=":"+std::string("5000");
    uint64_t e0; bool clean; { sim::NoSched n; e0=HS[h].epoch; clean=HS[h].clean()&&!sim::net::lookups_pending(h)&&(HS[h].cleanSince==0||sim::now_ns()>HS[h].cleanSince+100000000ull)&&timeoutUs>=2000000; }
    static thread_local uint64_t lastBad; (void)lastBad;
    const uint64_t t0=sim::now_ns(), w0=sim::waited_ns(), resets0=sim::net::resets();
    auto bounded=[&](const char*what){ const uint64_t d=sim::now_ns()-t0, w=sim::waited_ns()-w0, lim=2*(uint64_t)timeoutUs*1000ull+(stallsOn?1500000000ull:60000000ull); SIM_CHECK(d<=lim+w,P,"connection attempt not bounded","attempt on host %d with a timeout of %ld us %s after %.3f s",h,timeoutUs,what,(d-w)/1e9); };
    Pothos::RemoteClient c;
    try { c=Pothos::RemoteClient(uri,timeoutUs); }
    catch(const Pothos::RemoteClientError&e){
        bounded("failed"); sim::count("attempts failed"); bool still; { sim::NoSched n; still=HS[h].epoch==e0; }
        if(mustWork||(clean&&still&&sim::net::resets()==resets0)) sim::violate(P,"attempt on a healthy host failed","connecting to %s failed although host and name service were healthy throughout: %s",uri.c_str(),e.displayText().c_str());
        return false; }
    catch(const Pothos::Exception&e){ sim::violate(P,"wrong exception type","connecting to %s: %s",uri.c_str(),e.displayText().c_str()); }
    catch(const std::exception&e){ sim::violate(P,"unexpected exception type","connecting to %s: %s",uri.c_str(),e.what()); }
    bounded("succeeded"); okCount++;
    SIM_CHECK(bool(c),P,"null client","a connected client is null"); SIM_CHECK(c.getUri()==uri,P,"wrong uri","client reports uri '%s' for '%s'",c.getUri().c_str(),uri.c_str());
    if(r.chance(1,6)) return true; // connects and goes away
    try {
        auto env=c.makeEnvironment("managed"); if(r.chance(1,3)) c=Pothos::RemoteClient(); // the environment keeps the connection
        for(int k=(int)r.range(1,3);k>0;k--){ const int v=(int)r.below(999); int got=env->findProxy("SimConnect/Who").call<int>("ask",v); SIM_CHECK(got==h*1000+v,P,"connected to another host","the connection to host %d answered %d for %d",h,got,v); }
        const std::string ip=Pothos::RemoteClient::lookupIpFromNodeId(env->getNodeId()); SIM_CHECK(ip==hostIp(h),P,"node table","node id of an environment on host %d resolves to '%s'",h,ip.c_str());
    }
    catch(const Pothos::Exception&e){ SIM_CHECK(sim::net::resets()>resets0,P,"connection unusable","the connection to %s failed without a fault: %s",uri.c_str(),e.displayText().c_str()); return !mustWork; }
    return true;
}
}

SIM_WORLD(connect)
{
    using sim::param; using namespace sim; sim::set_caps(400000,3000000); LRng g(sim::rnd());
    for(auto k:{F_DNS_FAIL,F_DNS_SLOW,F_CONNECT_REFUSED,F_CONNECT_HANG,F_CONN_RESET,F_NET_FRAGMENT,F_NET_DELAY,F_EINTR}) enable_fault(k);
    const int nh=(int)param("hosts",1,MAXH), nt=(int)param("clients",1,4), na=(int)param("attempts",1,6), events=(int)param("events",0,10); const bool stalls=param("stalls",0,3)==3;
    sim::net::enable(true);
    stallsOn=stalls; if(stalls) sim::enable_stalls(2000,300000000ull);
    for(int h=0;h<nh;h++){ sim::net::add_host(hostName(h).c_str(),hostIp(h).c_str()); apply(h,0,0,0,0); }
    machines=0;
    std::deque<Server> servers; for(int h=0;h<nh;h++){ servers.emplace_back(h,5000); if(h==0) servers.emplace_back(h,16415); }
    for(int h=0;h<nh;h++) if(g.chance(1,2)) apply(h,g.chance(1,2),g.chance(1,2)?g.range(1,9000000000ull):0,g.chance(1,3)?(int)g.range(1,3):0,0);
    std::vector<std::thread> th; std::atomic<bool> stop{false};
    const uint64_t es=g.next();
    th.emplace_back([&,es]{ LRng r(es); for(int k=0;k<events&&!stop;k++){ sim::sleep_ns(r.chance(1,2)?r.range(1,3000000):r.range(1,3000000000ull)); const int h=(int)r.below(nh);
        if(r.chance(1,2)) apply(h,0,0,0,0); else apply(h,r.chance(1,3),r.chance(1,2)?(r.chance(1,2)?r.range(1,200000000ull):r.range(1,12000000000ull)):0,r.chance(1,3)?(int)r.range(1,3):0,r.chance(1,3)?r.range(1,4000000000ull):0); } });
    for(int t=0;t<nt;t++){ const uint64_t sd=g.next(); th.emplace_back([&,sd]{ LRng r(sd); static const long tm[]={1000,100000,100000,700000,2000000,5000000};
        for(int k=0;k<na;k++){ attempt(r,(int)r.below(nh),tm[r.below(6)],false); if(r.chance(1,2)) sim::sleep_ns(r.chance(1,3)?r.range(1,2000000000ull):r.range(1,4000000)); } }); }
    const int odd=(int)g.below(5);
    try { if(odd==0) Pothos::RemoteClient("udp://"+hostName(0)); else if(odd==1) Pothos::RemoteClient("tcp://nosuchhost.sim:5000"); else if(odd==2) Pothos::RemoteClient(hostName(0)); if(odd<3) sim::violate(P,"bad uri accepted","a bad address (%d) was accepted",odd); }
    catch(const Pothos::RemoteClientError&){} catch(const std::exception&e){ sim::violate(P,"unexpected exception type","bad address %d: %s",odd,e.what()); }
    for(auto&t:th) t.join();
    // the faults end; once what was under way is over every host is reachable again, at the first attempt
    sim::faults_off(); for(int h=0;h<nh;h++) apply(h,0,0,0,0);
    sim::sleep_ns(13000000000ull);
    for(int h=0;h<nh;h++) SIM_CHECK(!sim::net::lookups_pending(h),P,"harness: lookups pending","host %d",h);
    { std::vector<std::thread> fin; std::atomic<int> bad{0}; const int nf=(int)g.range(1,2); for(int t=0;t<nf;t++){ const uint64_t sd=g.next(); fin.emplace_back([&,sd]{ LRng r(sd); for(int h=0;h<nh;h++) if(!attempt(r,h,5000000,true)) bad++; }); } for(auto&t:fin) t.join(); SIM_CHECK(bad==0,P,"attempt on a healthy host failed","a connection made after all faults had ended does not work"); }
    for(auto&s:servers) s.stop();
    SIM_CHECK(sim::net::open_sockets()==0,P,"sockets leaked","%zu sockets are still open",sim::net::open_sockets());
    SIM_CHECK(sim::net::open_epolls()==0,P,"sockets leaked","%zu poll sets are still open",sim::net::open_epolls());
}
