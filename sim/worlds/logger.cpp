// World "logger" (C36): standard output redirected to the log, and log messages forwarded to and received from other processes
// over simulated datagrams.
// uses: net.cpp
#include "common.hpp"
#include "net.hpp"
#include <Pothos/System.hpp>
#include <Pothos/Init.hpp>
#include <Poco/Logger.h>
#include <Poco/Channel.h>
#include <Poco/AutoPtr.h>
#include <Poco/Message.h>
#include <Poco/Environment.h>
#include <iostream>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>

namespace {
const char*const P="C36"; using Pothos::System::Logger;
struct Rec { std::string source,text; int prio; };
// where the log ends up
struct Capture : Poco::Channel { std::deque<Rec> got; std::atomic<int> n{0};
    void log(const Poco::Message&m) override { if(sim::chance(1,3)) sim::yield(); { sim::NoSched q; got.push_back({m.getSource(),m.getText(),(int)m.getPriority()}); sim::note("log [%s] %s",m.getSource().c_str(),m.getText().c_str()); } n++; sim::count("messages logged"); } };
struct Device : std::streambuf { std::string got; std::streamsize xsputn(const char*s,std::streamsize n) override { sim::NoSched q; got.append(s,n); return n; } int_type overflow(int_type c) override { sim::NoSched q; if(c!=EOF) got.push_back((char)c); return c==EOF?0:c; } int sync() override { return 0; } };
void root(Poco::AutoPtr<Poco::Channel> c){ Poco::Logger::setChannel("",c); Poco::Logger::setLevel("",Poco::Message::PRIO_INFORMATION); }
//---------------------------------------------------------------- redirected streams
// every write is a token; tokens of one thread and stream appear once, whole and in order
void redirected()
{
    LRng g(sim::rnd()); const int nt=(int)sim::param("threads",1,3), nops=(int)sim::param("ops",1,12), again=(int)sim::param("again",0,2); std::ostream*os[3]={&std::cout,&std::cerr,&std::clog};
    Device dev[3]; for(int i=0;i<3;i++) os[i]->rdbuf(&dev[i]);
    Poco::AutoPtr<Capture> cap(new Capture); root(cap); sim::set_heap_races(P);
    Logger::forwardStdIoToLogging("sim.a"); std::atomic<int> left(nt); std::vector<int64_t> count(nt*3,0); std::vector<std::thread> th;
    for(int t=0;t<nt;t++){ const uint64_t sd=g.next(); th.emplace_back([&,t,sd]{ LRng r(sd);
        for(int k=0;k<nops;k++){ const int s=(int)r.below(3); std::string w="<"+std::to_string(t)+"."+std::to_string(s)+"."+std::to_string((int)count[t*3+s]++)+std::string(r.below(12),'x')+">"; const int how=(int)r.below(6);
            if(how<3) w+="\n"; if(how==3&&r.chance(1,2)) w="\n"+w; 
            if(r.chance(1,5)) *os[s]<<w.substr(0,1)<<w.substr(1); else os[s]->write(w.data(),w.size()); // a write in two parts may be torn by others: the first part is skipped below
            if(how!=4) os[s]->flush();
            if(nt==1&&how<3){ sim::NoSched n; std::string all; for(auto&m:cap->got) all+=m.text+"\n"; SIM_CHECK(all.find(w.substr(1))!=std::string::npos,P,"output not logged","a line that was printed and flushed is not in the log"); }
            if(r.chance(1,4)) sim::sleep_ns(r.below(1500000000)); } left--; }); }
    std::string src="sim.a"; if(again) th.emplace_back([&]{ for(int k=0;k<again;k++){ sim::sleep_ns(sim::rnd(1500000000)); src=k?"sim.c":"sim.b"; Logger::forwardStdIoToLogging(src); sim::count("redirected again"); } });
    for(auto&t:th) t.join();
    for(int s=0;s<3;s++){ *os[s]<<"{end"<<s<<"}\n"; os[s]->flush(); }
    std::string all; for(auto&m:cap->got){ all+=m.text+"\n"; SIM_CHECK(m.source=="sim.a"||(again&&(m.source=="sim.b"||m.source=="sim.c")),P,"wrong source","redirected output is logged with source '%s'",m.source.c_str()); }
    for(int s=0;s<3;s++){ SIM_CHECK(dev[s].got.empty(),P,"output not redirected","'%s' was printed instead of logged",dev[s].got.c_str()); SIM_CHECK(all.find("{end"+std::to_string(s)+"}")!=std::string::npos,P,"output not logged","the last line of stream %d is not in the log",s); }
    for(int t=0;t<nt;t++) for(int s=0;s<3;s++){ size_t at=0; const std::string pre=std::to_string(t)+"."+std::to_string(s)+"."; for(int k=0;k<count[t*3+s];k++){ const std::string w=pre+std::to_string(k); size_t p=std::string::npos; int n=0; for(size_t q=all.find(w);q!=std::string::npos;q=all.find(w,q+1)){ size_t e=q+w.size(); while(e<all.size()&&all[e]=='x') e++; if(all[e]=='>'&&(q==0||all[q-1]<'0'||all[q-1]>'9')){ n++; p=q; } }
        SIM_CHECK(n==1,P,n?"output logged twice":"output lost","what thread %d printed to stream %d as number %d is in the log %d times",t,s,k,n); SIM_CHECK(p>=at,P,"output out of order","thread %d, stream %d, number %d",t,s,k); at=p; } }
    if(again){ cap->got.clear(); std::cout<<"last\n"<<std::flush; SIM_CHECK(cap->got.size()==1&&cap->got[0].source==src,P,"wrong source","after the last call the source is %s",src.c_str()); }
    // an unfinished line is logged when its output continues after a pause
    for(int s=0;s<3;s++){ cap->got.clear(); *os[s]<<"half of it"<<std::flush; sim::sleep_ns(501000000+sim::rnd(1000000000)); *os[s]<<", more"<<std::flush; std::string t; for(auto&m:cap->got) t+=m.text; SIM_CHECK(t=="half of it, more",P,"unfinished output not logged","'half of it', a pause and ', more' are logged as '%s'",t.c_str()); *os[s]<<" and the end\n"<<std::flush; t.clear(); for(auto&m:cap->got) t+=m.text; SIM_CHECK(t=="half of it, more and the end",P,"unfinished output not logged","a line printed with a pause is logged as '%s'",t.c_str()); }
    // the priority is recognised by the words at the beginning
    static const std::pair<const char*,int> pr[]={{"an Error here",Poco::Message::PRIO_ERROR},{"warning!",Poco::Message::PRIO_WARNING},{"FATAL error",Poco::Message::PRIO_FATAL},{"all is well and no problem anywhere, not even an error",Poco::Message::PRIO_INFORMATION}};
    for(auto&p:pr){ cap->got.clear(); std::cerr<<p.first<<"\n"<<std::flush; SIM_CHECK(cap->got.size()==1&&cap->got[0].prio==p.second&&cap->got[0].text==p.first,P,"wrong message","'%s' is logged as '%s' with priority %d",p.first,cap->got.empty()?"":cap->got[0].text.c_str(),cap->got.empty()?0:cap->got[0].prio); }
}
//---------------------------------------------------------------- forwarding
std::map<std::string,int> sent; std::atomic<int> sends(0); std::set<int> ports; // by text: sends attempted; those that failed are removed from what must arrive
std::set<std::string> failed; std::map<std::string,int> sentTo;
std::string token(const char*d,size_t n){ std::string s(d,n); size_t a=s.find("{{"), b=s.find("}}"); return a==std::string::npos||b==std::string::npos?"":s.substr(a+2,b-a-2); }
void datagram(int port,const char*d,size_t n,bool lost){ const std::string t=token(d,n); sent[t]++; sentTo[t]=port; if(lost){ failed.insert(t); sim::count("datagrams not sent"); } else sim::count("datagrams"); sends++; }
int level(LRng&r){ static const int p[]={Poco::Message::PRIO_ERROR,Poco::Message::PRIO_WARNING,Poco::Message::PRIO_INFORMATION,Poco::Message::PRIO_CRITICAL}; return p[r.below(4)]; }
void forwarding()
{
    LRng g(sim::rnd()); const int nt=(int)sim::param("threads",1,3), nops=(int)sim::param("ops",1,6), phases=(int)sim::param("phases",1,4); const bool faults=sim::param("faults",0,1);
    sent.clear(); failed.clear(); sentTo.clear(); sends=0; setenv("POTHOS_SYSLOG_ADDR","",1);
    sim::net::enable(true); sim::net::add_host("node0.sim","10.0.0.10"); sim::net::on_datagram=&datagram; if(faults){ sim::enable_fault(sim::F_SEND_FAIL); sim::enable_fault(sim::F_EINTR); }
    Poco::AutoPtr<Capture> cap(new Capture); root(cap); Poco::Logger&early=Poco::Logger::get("sim.early"); std::map<std::string,Rec> said; std::map<std::string,int> fwd; int made=0; bool on=false; int port=0; std::vector<std::string> order[4];
    // a listener in this process receives what is forwarded to it
    const bool listen=sim::param("listener",0,1); int lport=0; Poco::AutoPtr<Capture> at=cap; std::string lp;
    if(listen){ std::vector<std::string> res(nt); std::vector<std::thread> th; for(int t=0;t<nt;t++) th.emplace_back([&,t]{ try { res[t]=Logger::startSyslogListener(); } catch(const std::exception&e){ sim::violate(P,"listener not started","startSyslogListener failed: %s",e.what()); } }); for(auto&t:th) t.join(); for(auto&x:res) SIM_CHECK(x==res[0],P,"several listeners","the listener is at port %s and at port %s",res[0].c_str(),x.c_str()); lport=atoi(res[0].c_str()); SIM_CHECK(lport>0,P,"listener not started","port '%s'",res[0].c_str()); }
    for(int ph=0;ph<phases;ph++){
        const int act=(int)g.below(4); if(act<2||ph==0){ port=listen&&g.chance(2,3)?lport:7000+(int)g.below(3); Logger::startSyslogForwarding("127.0.0.1:"+std::to_string(port)); on=true; SIM_CHECK(Poco::Environment::get("POTHOS_SYSLOG_ADDR","")=="127.0.0.1:"+std::to_string(port),P,"subprocesses not told","%s",Poco::Environment::get("POTHOS_SYSLOG_ADDR","").c_str()); }
        else if(act==2){ Logger::stopSyslogForwarding(); on=false; SIM_CHECK(Poco::Environment::get("POTHOS_SYSLOG_ADDR","").empty(),P,"subprocesses not told","after forwarding was stopped, subprocesses still forward to %s",Poco::Environment::get("POTHOS_SYSLOG_ADDR","").c_str()); }
        Poco::Logger&late=Poco::Logger::get("sim.late"+std::to_string(made++)); std::vector<std::thread> th;
        for(int t=0;t<nt;t++){ const uint64_t sd=g.next(); th.emplace_back([&,t,sd,ph]{ LRng r(sd); for(int k=0;k<nops;k++){ const std::string tk=std::to_string(ph)+"."+std::to_string(t)+"."+std::to_string(k); Poco::Logger&l=r.chance(1,2)?early:late; const int pr=level(r); Rec rec{l.name(),"text {{"+tk+"}} end",pr}; { sim::NoSched n; said[tk]=rec; fwd[tk]=on?port:0; order[t].push_back(tk); } try { l.log(Poco::Message(l.name(),rec.text,(Poco::Message::Priority)pr)); } catch(const Poco::Exception&){ sim::count("log calls that failed"); } if(r.chance(1,4)) sim::sleep_ns(r.below(100000000)); } }); }
        for(auto&t:th) t.join(); sim::count(on?"phases with forwarding":"phases without forwarding");
    }
    sim::faults_off(); if(listen) for(int i=0;i<400;i++) sim::sleep_ns(2000000); // received messages are logged by other threads
    sim::NoSched n; std::map<std::string,std::vector<Rec>> logged; for(auto&m:cap->got) logged[token(m.text.data(),m.text.size())].push_back(m);
    for(auto&x:said){ const int to=fwd[x.first]; const auto&lg=logged[x.first]; const bool lost=failed.count(x.first)!=0;
        if(to){ SIM_CHECK(sent[x.first]==1,P,sent[x.first]?"forwarded twice":"not forwarded","message %s of logger %s was sent %d times while forwarding to port %d",x.first.c_str(),x.second.source.c_str(),sent[x.first],to); SIM_CHECK(sentTo[x.first]==to,P,"forwarded elsewhere","message %s went to port %d instead of %d",x.first.c_str(),sentTo[x.first],to); }
        else SIM_CHECK(sent[x.first]==0,P,"forwarded after stop","message %s of logger %s was still forwarded to port %d",x.first.c_str(),x.second.source.c_str(),sentTo[x.first]);
        const int want=!to||(to==lport&&!lost)?1:0; SIM_CHECK((int)lg.size()==want,P,lg.empty()?"message lost":"message logged twice","message %s, which was forwarded to port %d%s, is in the local log %zu times",x.first.c_str(),to,to&&to==lport?" where this process listens":"",lg.size());
        if(want) SIM_CHECK(lg[0].source==x.second.source&&lg[0].prio==x.second.prio&&(to||lg[0].text==x.second.text)&&lg[0].text.find(x.second.text)!=std::string::npos,P,"wrong message","[%s] '%s' with priority %d arrived as [%s] '%s' with priority %d",x.second.source.c_str(),x.second.text.c_str(),x.second.prio,lg[0].source.c_str(),lg[0].text.c_str(),lg[0].prio); }
}
void listenerEnd(){ try { Logger::stopSyslogListener(); Logger::stopSyslogForwarding(); } catch(const std::exception&e){ sim::violate(P,"stop failed","%s",e.what()); } SIM_CHECK(sim::net::open_sockets()==0,P,"sockets leaked","%zu sockets are still open",sim::net::open_sockets()); }
//---------------------------------------------------------------- starting and stopping the listener
void listening()
{
    LRng g(sim::rnd()); const int rounds=(int)sim::param("rounds",1,3), nt=(int)sim::param("threads",1,3); const bool faults=sim::param("faults",0,1); setenv("POTHOS_SYSLOG_ADDR","",1); sent.clear(); failed.clear();
    sim::net::enable(true); sim::net::add_host("node0.sim","10.0.0.10"); sim::net::on_datagram=&datagram; if(faults) for(auto k:{sim::F_BIND_FAIL,sim::F_EINTR}) sim::enable_fault(k);
    Poco::AutoPtr<Capture> cap(new Capture); root(cap);
    for(int r=0;r<rounds;r++){ std::vector<std::thread> th; std::vector<std::string> res(nt); const bool last=r==rounds-1; if(last) sim::faults_off();
        for(int t=0;t<nt;t++) th.emplace_back([&,t]{ try { res[t]=Logger::startSyslogListener(); } catch(const std::exception&e){ SIM_CHECK(faults&&!last,P,"listener not started","startSyslogListener failed although nothing is wrong: %s",e.what()); sim::count("listener not started"); } }); for(auto&t:th) t.join();
        std::string port; for(auto&x:res) if(!x.empty()){ SIM_CHECK(port.empty()||port==x,P,"several listeners","the listener is at port %s and at port %s",port.c_str(),x.c_str()); port=x; }
        if(!port.empty()){ sim::count("listeners"); // what is sent there is logged: use a raw datagram in the syslog format
            const int fd=socket(AF_INET,SOCK_DGRAM,0); const std::string m="<11>1 2026-01-01T00:00:00.000000Z host app - - {{r"+std::to_string(r)+"}}"; sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; a.sin_port=htons((uint16_t)atoi(port.c_str())); a.sin_addr.s_addr=htonl(0x7f000001); const int had=cap->n; sendto(fd,m.data(),m.size(),0,(sockaddr*)&a,sizeof a); close(fd);
            for(int i=0;i<500&&cap->n==had;i++) sim::sleep_ns(2000000); SIM_CHECK(cap->n==had+1,P,"listener does not listen","startSyslogListener returned port %s, but a message sent there is logged %d times",port.c_str(),cap->n-had); }
        th.clear(); for(int t=0;t<(g.chance(1,2)?1:nt);t++) th.emplace_back([&]{ try { Logger::stopSyslogListener(); } catch(const std::exception&e){ sim::violate(P,"stop failed","%s",e.what()); } }); for(auto&t:th) t.join();
        SIM_CHECK(sim::net::open_sockets()==0,P,"sockets leaked","after the listener was stopped %zu sockets are open",sim::net::open_sockets()); }
}
}
#include <netinet/in.h>
SIM_WORLD(logger)
{
    sim::set_caps(400000,400000); sim::set_free_races(nullptr); int mode=(int)sim::param("mode",0,2);
    std::streambuf*b[3]={std::cout.rdbuf(),std::cerr.rdbuf(),std::clog.rdbuf()};
    if(mode==0) redirected(); else if(mode==1){ forwarding(); listenerEnd(); } else listening();
    sim::net::enable(false); std::cout.rdbuf(b[0]); std::cerr.rdbuf(b[1]); std::clog.rdbuf(b[2]); Poco::Logger::setChannel("",new Capture);
}
