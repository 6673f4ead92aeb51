// World "mapped" (C23): threads create, use, share and release circular buffers and file-mapped buffers while the simulated
// kernel refuses calls, moves mappings and other code of the process maps and unmaps memory in between.
#include "common.hpp"
#include <Pothos/Framework/SharedBuffer.hpp>

namespace {
const char *const P="C23";
struct Circ { Pothos::SharedBuffer b; uint64_t tag; };

void fill(const Circ&c)
{
    uint8_t*p=(uint8_t*)c.b.getAddress(); const size_t n=c.b.getLength();
    for(size_t i=0;i<n;i+=n/16){ p[i]=(uint8_t)(c.tag+i/64); }
}
void check(const Circ&c)
{
    volatile uint8_t*p=(volatile uint8_t*)c.b.getAddress(); const size_t n=c.b.getLength();
    SIM_CHECK(sim::kern::owns((uintptr_t)p,n)&&sim::kern::owns((uintptr_t)p+n,n),P,"memory not mapped","circular buffer of %zu bytes: not all of its two halves are mapped",n);
    for(size_t i=0;i<n;i+=n/16){
        SIM_CHECK(p[i]==(uint8_t)(c.tag+i/64),P,"contents lost","byte %zu of a circular buffer changed behind its holder's back",i);
        SIM_CHECK(p[i+n]==p[i],P,"halves differ","byte %zu of a circular buffer differs from its mirror",i);
        p[i+n]=(uint8_t)(p[i]^0x55); SIM_CHECK(p[i]==p[i+n],P,"halves differ","a write through the mirror at %zu did not show in the buffer",i); p[i]=(uint8_t)(p[i]^0x55); SIM_CHECK(p[i]==p[i+n],P,"halves differ","a write at %zu did not show in the mirror",i);
    }
}
void circThread(uint64_t seed,int nops)
{
    LRng r(seed); std::vector<Circ> held;
    for(int k=0;k<nops;k++){
        if(held.size()<3&&r.chance(1,2)){
            Circ c; c.tag=r.next(); size_t want=r.chance(1,4)?1+r.below(12288):4096*(1+r.below(3));
            try { c.b=Pothos::SharedBuffer::makeCirc(want); }
            catch(const Pothos::Exception&){ sim::count("circular creation failed"); SIM_CHECK(sim::faults_enabled()||sim::kern::open_maps()>60,P,"creation failed without a fault","makeCirc(%zu) failed although no system call did",want); continue; }
            sim::count("circular created"); SIM_CHECK(c.b.getLength()>=want&&c.b.getAlias()==c.b.getAddress()+c.b.getLength(),P,"wrong shape","makeCirc(%zu) gave %zu bytes, mirror at +%zu",want,c.b.getLength(),c.b.getAlias()-c.b.getAddress());
            { volatile uint8_t*p=(volatile uint8_t*)c.b.getAddress(); const size_t n=c.b.getLength(); SIM_CHECK(sim::kern::owns((uintptr_t)p,n)&&sim::kern::owns((uintptr_t)p+n,n),P,"memory not mapped","a new circular buffer of %zu bytes is not mapped at both halves",n); }
            fill(c); held.push_back(c); }
        else if(!held.empty()){
            size_t i=r.below(held.size()); check(held[i]);
            if(r.chance(1,3)){ Pothos::SharedBuffer sub(held[i].b.getAddress()+held[i].b.getLength()/2,held[i].b.getLength(),held[i].b); volatile uint8_t*q=(volatile uint8_t*)sub.getAddress(); (void)q[sub.getLength()-1]; }
            if(r.chance(1,2)) held.erase(held.begin()+i);
            else sim::yield(); }
    }
    for(auto&c:held) check(c);
}
void fileThread(uint64_t seed,int nops,int id)
{
    LRng r(seed); char path[64]; std::vector<uint8_t> model; snprintf(path,sizeof path,"/simfs/data%d",id); const size_t n=r.chance(1,2)?1+r.below(9000):4096*(1+r.below(2));
    { sim::NoSched g; for(size_t i=0;i<n;i++) model.push_back((uint8_t)r.next()); sim::kern::make_file(path,model.data(),n,0644); sim::kern::make_file((std::string(path)+"e").c_str(),"",0,0644); }
    std::vector<std::pair<Pothos::SharedBuffer,bool>> held;
    auto same=[&](const Pothos::SharedBuffer&b){ sim::NoSched g; SIM_CHECK(b.getLength()==n,P,"wrong length","mapping of a file of %zu bytes has %zu",n,b.getLength()); SIM_CHECK(sim::kern::owns(b.getAddress(),(n+4095)&~4095ull),P,"memory not mapped","a held file buffer is no longer mapped"); const volatile uint8_t*p=(const volatile uint8_t*)b.getAddress(); for(size_t i=0;i<n;i+=37) SIM_CHECK(p[i]==model[i],P,"wrong file contents","byte %zu is %u, the file has %u",i,(unsigned)p[i],(unsigned)model[i]); };
    for(int k=0;k<nops;k++){
        switch(r.below(4)){
        case 0: case 1: { if(held.size()>3) break; bool w=r.chance(1,2); try { auto b=Pothos::SharedBuffer::makeFromFileMMap(path,true,w); same(b); held.push_back({b,w}); sim::count("file mapped"); } catch(const std::exception&e){ sim::count("file mapping failed"); SIM_CHECK(sim::faults_enabled(),P,"creation failed without a fault","makeFromFileMMap failed although no system call did: %s",e.what()); } break; }
        case 2: { const char*what=r.chance(1,2)?"/simfs/none":nullptr; std::string q=what?what:std::string(path)+"e"; bool threw=false; try { auto b=Pothos::SharedBuffer::makeFromFileMMap(q,true,false); } catch(const std::exception&){ threw=true; } SIM_CHECK(threw,P,"mapped nothing","mapping %s succeeded",what?"a missing file":"an empty file"); break; }
        default: if(!held.empty()){ size_t i=r.below(held.size()); same(held[i].first); if(held[i].second){ size_t o=r.below(n); uint8_t v=(uint8_t)r.next(); ((volatile uint8_t*)held[i].first.getAddress())[o]=v; model[o]=v; uint8_t back[16384]; { sim::NoSched g; size_t m=sim::kern::read_file(path,back,sizeof back); SIM_CHECK(m==n&&back[o]==v,P,"write not in the file","a write through a writable mapping did not reach the file"); } } if(r.chance(1,2)) held.erase(held.begin()+i); } }
    }
    for(auto&h:held) same(h.first);
}
// unrelated code of the process that maps and unmaps memory of its own
void foreignThread(uint64_t seed,std::atomic<bool>*stop)
{
    LRng r(seed); std::vector<std::pair<uint8_t*,size_t>> m;
    while(!*stop){
        if(m.size()<4&&r.chance(2,3)){ size_t n=4096*(1+r.below(4)); sim::NoSched g; uint8_t*p=(uint8_t*)sim::kern::map(n); sim::kern::mark_foreign(p); for(size_t i=0;i<n;i+=512) p[i]=(uint8_t)((uintptr_t)p>>12); m.push_back({p,n}); sim::count("foreign mapping"); }
        else if(!m.empty()){ size_t i=r.below(m.size()); sim::NoSched g; for(size_t k=0;k<m[i].second;k+=512) SIM_CHECK(m[i].first[k]==(uint8_t)((uintptr_t)m[i].first>>12),P,"foreign memory changed","memory of unrelated code was overwritten"); sim::kern::unmap(m[i].first,m[i].second); m.erase(m.begin()+i); }
        sim::sleep_ns(r.below(20000)); }
    for(auto&x:m){ sim::NoSched g; sim::kern::unmap(x.first,x.second); }
}
}
SIM_WORLD(mapped)
{
    sim::set_caps(300000,300000);
    const int nc=(int)sim::param("circularThreads",1,4), nf=(int)sim::param("fileThreads",0,2), nops=(int)sim::param("ops",1,16); const bool foreign=sim::param("foreign",0,1);
    sim::kern::enable(true);
    { auto b=Pothos::SharedBuffer::makeCirc(1); } // first use creates the process-wide statics
    for(int f:{sim::F_OPEN_FAIL,sim::F_CLOSE_FAIL,sim::F_FTRUNCATE_FAIL,sim::F_STAT_FAIL,sim::F_MMAP_FAIL,sim::F_MMAP_MOVED}) sim::enable_fault((sim::FaultKind)f);
    if(sim::param("faultless",0,4)==1) sim::faults_off();
    std::vector<std::thread> th; std::atomic<bool> stop(false); std::thread ft;
    std::vector<uint64_t> seeds; for(int i=0;i<8;i++) seeds.push_back(sim::rnd());
    if(foreign) ft=std::thread(foreignThread,seeds[7],&stop);
    for(int i=0;i<nc;i++) th.emplace_back(circThread,seeds[i],nops);
    for(int i=0;i<nf;i++) th.emplace_back(fileThread,seeds[4+i],nops,i);
    for(auto&t:th) t.join();
    stop=true; if(foreign) ft.join();
    SIM_CHECK(sim::kern::open_maps()==0,P,"mapping leaked","%zu mappings remain after every buffer was released",sim::kern::open_maps());
    SIM_CHECK(sim::kern::open_fds()==0,P,"descriptor leaked","%zu descriptors remain open after every buffer was released",sim::kern::open_fds());
    SIM_CHECK(sim::kern::files_under("/tmp/")==0,P,"temporary file leaked","%zu temporary files remain",sim::kern::files_under("/tmp/"));
    // the faults are over: both kinds can be created again
    sim::faults_off(); try { Circ c; c.tag=7; c.b=Pothos::SharedBuffer::makeCirc(4096); fill(c); check(c); } catch(const Pothos::Exception&e){ sim::violate(P,"creation failed without a fault","makeCirc failed after the faults ended: %s",e.displayText().c_str()); }
    sim::kern::enable(false);
}
