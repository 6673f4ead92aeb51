// A simulated byte stream connection: bounded in-flight data, arbitrary fragmentation, delay, loss of the connection at any
// byte (orderly end or error), and corruption.  Both ends are ordinary std::iostreams for the code under test.
#pragma once
#include "sim.h"
#include <streambuf>
#include <istream>
#include <ostream>
#include <deque>
#include <mutex>
#include <condition_variable>
#include <string>
#include <stdexcept>
#include <cstring>

struct Pipe
{
    std::mutex m; std::condition_variable cv; std::deque<char> q; bool eof=false, reset=false; size_t cap=1<<20; uint64_t total=0, taken=0; uint64_t cutAt=~0ull; bool cutIsReset=false; bool readerGone=false; uint64_t failWriteAt=~0ull; Pipe*twin=nullptr;
    // returns bytes accepted, 0 when the connection is gone
    size_t put(const char*p,size_t n)
    {
        std::unique_lock<std::mutex> l(m);
        while(!eof&&!reset&&!readerGone&&q.size()>=cap) cv.wait(l);
        if(eof||reset||readerGone) return 0;
        if(total+n>failWriteAt){ failWriteAt=~0ull; sim::fault(sim::F_STREAM_WRITE_ERR,1,1); sim::count("write failed"); return 0; } // one failed write, the connection stays open
        if(n>cap-q.size()) n=cap-q.size();
        bool cut=false; if(total+n>=cutAt){ n=(size_t)(cutAt-total); cut=true; }
        q.insert(q.end(),p,p+n); total+=n;
        if(cut){ if(cutIsReset){ reset=true; q.clear(); } else eof=true; sim::count("connection cut"); cv.notify_all(); if(twin){ l.unlock(); twin->fail(); } return n; }
        cv.notify_all(); return n;
    }
    // returns bytes, 0 at the end; throws when the connection was reset
    size_t get(char*p,size_t n)
    {
        if(sim::fault(sim::F_STREAM_DELAY,1,24)) sim::sleep_ns(1+sim::fault_value(sim::F_STREAM_DELAY,3000000));
        std::unique_lock<std::mutex> l(m);
        while(q.empty()&&!eof&&!reset) cv.wait(l);
        if(reset) throw std::runtime_error("connection reset");
        if(q.empty()) return 0;
        size_t k=q.size()<n?q.size():n; if(k>1&&sim::fault(sim::F_STREAM_FRAGMENT,1,4)) k=1+sim::fault_value(sim::F_STREAM_FRAGMENT,k-1);
        for(size_t i=0;i<k;i++) p[i]=q[i]; q.erase(q.begin(),q.begin()+k); taken+=k; cv.notify_all(); return k;
    }
    void end(){ std::lock_guard<std::mutex> l(m); eof=true; cv.notify_all(); }           // writer closed
    void fail(){ std::lock_guard<std::mutex> l(m); reset=true; q.clear(); cv.notify_all(); } // connection reset
    void stopReading(){ std::lock_guard<std::mutex> l(m); readerGone=true; cv.notify_all(); }
};
class PipeIn: public std::streambuf
{
    Pipe&p; char b[256]; size_t n;
protected:
    int_type underflow() override { size_t k=p.get(b,n); if(!k) return traits_type::eof(); setg(b,b,b+k); return traits_type::to_int_type(*b); }
public: PipeIn(Pipe&p_,size_t n_=256):p(p_),n(n_<256?n_:256){ setg(b,b,b); }
};
class PipeOut: public std::streambuf
{
    Pipe&p; char b[256]; 
    bool flushAll(){ char*c=pbase(); while(c<pptr()){ size_t k=p.put(c,(size_t)(pptr()-c)); if(!k){ setp(b,b+cap); return false; } c+=k; } setp(b,b+cap); return true; }
    size_t cap;
protected:
    int_type overflow(int_type c) override { if(!flushAll()) return traits_type::eof(); if(!traits_type::eq_int_type(c,traits_type::eof())){ if(cap==0){ char ch=(char)c; return p.put(&ch,1)?c:traits_type::eof(); } *pptr()=(char)c; pbump(1); } return traits_type::not_eof(c); }
    int sync() override { return flushAll()?0:-1; }
public: PipeOut(Pipe&p_,size_t cap_=200):p(p_),cap(cap_<256?cap_:256){ setp(b,b+cap); }
    ~PipeOut(){}
};
struct PipeIStream: std::istream { PipeIn b; PipeIStream(Pipe&p,size_t n=256):std::istream(nullptr),b(p,n){ rdbuf(&b); } };
struct PipeOStream: std::ostream { PipeOut b; PipeOStream(Pipe&p,size_t n=200):std::ostream(nullptr),b(p,n){ rdbuf(&b); } };
struct PipeBoth: std::streambuf // one object for both directions, as a socket stream has
{
    struct In: PipeIn { using PipeIn::PipeIn; using PipeIn::underflow; std::streamsize left(){ return egptr()-gptr(); } const char*at(){ return gptr(); } void adv(int n){ gbump(n); } } in;
    struct Out: PipeOut { using PipeOut::PipeOut; using PipeOut::overflow; using PipeOut::sync; } out;
    PipeBoth(Pipe&i,Pipe&o,size_t n,size_t m):in(i,n),out(o,m){}
    int_type underflow() override { if(in.left()==0) in.underflow(); if(in.left()==0) return traits_type::eof(); return traits_type::to_int_type(*in.at()); }
    int_type uflow() override { int_type c=underflow(); if(!traits_type::eq_int_type(c,traits_type::eof())) in.adv(1); return c; }
    int_type overflow(int_type c) override { return out.sputc(traits_type::to_char_type(c)); }
    std::streamsize xsputn(const char*s,std::streamsize n) override { return out.sputn(s,n); }
    int sync() override { return out.pubsync(); }
};
struct PipeIO: std::iostream { PipeBoth b; PipeIO(Pipe&in,Pipe&out,size_t n=256,size_t m=200):std::iostream(nullptr),b(in,out,n,m){ rdbuf(&b); } };
