// World "refs": threads copy, move, assign, exchange and drop Objects, shared/managed buffers and buffer chunks (C21), and
// producers recycle buffers through managers and pools while others still hold them (C07).
#include "common.hpp"

namespace {
struct Reg { std::map<int,int> live; std::mutex m; int made=0, gone=0; } *reg;
// value with an identity: constructed once, destroyed exactly once, never used afterwards
struct Tracked {
    int id; int *cell; std::vector<Pothos::Object> kids;
    explicit Tracked(int i):id(i),cell(new int(i*3)){ sim::NoSched g; reg->live[i]++; reg->made++; }
    Tracked(const Tracked&)=delete; Tracked&operator=(const Tracked&)=delete;
    ~Tracked(){ { sim::NoSched g; SIM_CHECK(reg->live[id]==1,"C21","released twice","value %d destroyed %s",id,reg->live[id]<=0?"twice":"while duplicated"); reg->live[id]--; reg->gone++; } sim::hb_write(cell,"C21","contents of a shared value"); *cell=-1; delete cell; }
    void use() const { sim::hb_read(cell,"C21","contents of a shared value"); SIM_CHECK(*cell==id*3,"C21","used after release","value %d used after it was destroyed",id); }
};
struct Cont { int id; int *cell; size_t n; ull*mem; explicit Cont(int i,size_t n_):id(i),cell(new int(i*3)),n(n_),mem(new ull[n_]){ sim::NoSched g; reg->live[i]++; reg->made++; for(size_t k=0;k<n;k++) mem[k]=(ull)i<<32|k; }
    ~Cont(){ { sim::NoSched g; SIM_CHECK(reg->live[id]==1,"C21","released twice","memory %d released %s",id,reg->live[id]<=0?"twice":"while duplicated"); reg->live[id]--; reg->gone++; } sim::hb_write(cell,"C21","contents of a shared buffer"); *cell=-1; delete cell; delete[] mem; } };

void objects(int nt,int nops)
{
    using Pothos::Object;
    struct Box { std::mutex m; std::vector<Object> v; } box; int nid=0; std::vector<uint64_t> seeds;
    for(int i=0;i<3;i++) box.v.push_back(Object::emplace<Tracked>(nid++));
    // a value that holds other values: taking a part out of it may drop the whole
    { Object o=Object::emplace<Tracked>(nid++); auto&t=const_cast<Tracked&>(o.extract<Tracked>()); for(int k=0;k<2;k++) t.kids.push_back(Object::emplace<Tracked>(nid++)); box.v.push_back(o); }
    std::atomic<int> next(nid); std::vector<std::thread> th; for(int i=0;i<nt;i++) seeds.push_back(sim::rnd());
    for(int i=0;i<nt;i++) th.emplace_back([&,i]{
        LRng r(seeds[i]); std::vector<Object> s(4); 
        for(int k=0;k<nops;k++){
            size_t a=r.below(4),b=r.below(4);
            switch(r.below(14)){
            case 0: { std::lock_guard<std::mutex> l(box.m); if(!box.v.empty()) s[a]=box.v[r.below(box.v.size())]; break; }
            case 1: { std::lock_guard<std::mutex> l(box.m); if(!box.v.empty()&&s[a]) std::swap(box.v[r.below(box.v.size())],s[a]); break; }
            case 2: { Object drop; { std::lock_guard<std::mutex> l(box.m); if(box.v.size()>1&&r.chance(1,2)){ drop=std::move(box.v.back()); box.v.pop_back(); } else if(s[a]) box.v.push_back(s[a]); } break; }
            case 3: s[a]=s[b]; sim::count(a==b?"self assignment":"assignment"); break;
            case 4: { Object&x=s[a]; Object&y=s[b]; const bool had=bool(y); const void*was=had?(const void*)&y.extract<Tracked>():nullptr; x=std::move(y); if(had&&a!=b) SIM_CHECK(x&&&x.extract<Tracked>()==was&&!y,"C21","wrong value after a move","a moved value arrived changed"); if(x) x.extract<Tracked>().use(); break; }
            case 12: if(s[a]&&s[a].unique()){ auto&t=s[a].ref<Tracked>(); if(!t.kids.empty()){ const size_t j=r.below(t.kids.size()); s[a]=std::move(t.kids[j]); if(s[a]) s[a].extract<Tracked>().use(); sim::count("replaced by own part (moved)"); } } break;
            case 5: s[a]=Object(); break;
            case 6: s[a]=Object::emplace<Tracked>(next++); break;
            case 7: { Object c(s[a]); if(c) c.extract<Tracked>().use(); Object d(std::move(c)); SIM_CHECK(!c,"C21","moved-from value","a moved-from Object still refers to its value"); break; }
            case 8: if(s[a]){ const auto&t=s[a].extract<Tracked>(); if(!t.kids.empty()){ s[a]=t.kids[r.below(t.kids.size())]; s[a].extract<Tracked>().use(); sim::count("replaced by own part"); } } break;
            case 9: if(s[a]&&s[a].unique()){ // sole owner may modify
                    auto&t=s[a].ref<Tracked>(); sim::hb_write(t.cell,"C21","contents of a shared value"); *t.cell=t.id*3; sim::count("unique owner writes"); } break;
            default: if(s[a]) s[a].extract<Tracked>().use(); }
        } });
    for(auto&t:th) t.join();
    { std::vector<Object> keep=box.v; box.v.clear(); for(size_t i=0;i<keep.size();i++){ std::set<const void*> same; int c=0; for(auto&o:keep) if(&o.extract<Tracked>()==&keep[i].extract<Tracked>()) c++; bool kid=false; for(auto&o:keep) for(auto&q:o.extract<Tracked>().kids) if(&q.extract<Tracked>()==&keep[i].extract<Tracked>()) kid=true; if(!kid) SIM_CHECK(keep[i].unique()==(c==1),"C21","use count","unique() is %d with %d copies",(int)keep[i].unique(),c); } }
    SIM_CHECK(reg->made==reg->gone,"C21","not released","%d values created, %d released after every reference was dropped",reg->made,reg->gone);
}
Pothos::SharedBuffer mk(int id){ size_t n=8; auto c=std::make_shared<Cont>(id,n); return Pothos::SharedBuffer((size_t)c->mem,n*8,c); }
void chk(const Pothos::SharedBuffer&b){ if(!b) return; auto c=std::static_pointer_cast<Cont>(b.getContainer()); sim::hb_read(c->cell,"C21","contents of a shared buffer"); SIM_CHECK(*c->cell==c->id*3,"C21","used after release","memory %d used after it was released",c->id); const ull*p=(const ull*)b.getAddress(); SIM_CHECK((*p>>32)==(ull)c->id,"C21","wrong memory","buffer of memory %d shows %llx",c->id,*p); }

void buffers(int nt,int nops)
{
    using namespace Pothos; struct Box { std::mutex m; std::vector<BufferChunk> c; std::vector<ManagedBuffer> mb; std::vector<SharedBuffer> sb; } box; int nid=0; std::vector<uint64_t> seeds; for(int i=0;i<nt;i++) seeds.push_back(sim::rnd());
    for(int i=0;i<2;i++){ SharedBuffer s=mk(nid++); box.sb.push_back(s); ManagedBuffer m(s); box.mb.push_back(m); box.c.emplace_back(m); }
    std::atomic<int> next(nid); std::vector<std::thread> th;
    for(int i=0;i<nt;i++) th.emplace_back([&,i]{
        LRng r(seeds[i]); BufferChunk c[3]; ManagedBuffer m[3]; SharedBuffer s[3];
        for(int k=0;k<nops;k++){ size_t a=r.below(3),b=r.below(3);
            switch(r.below(16)){
            case 0: { std::lock_guard<std::mutex> l(box.m); c[a]=box.c[r.below(box.c.size())]; m[b]=box.mb[r.below(box.mb.size())]; s[a]=box.sb[r.below(box.sb.size())]; break; }
            case 1: { std::lock_guard<std::mutex> l(box.m); if(c[a]) std::swap(box.c[r.below(box.c.size())],c[a]); if(m[b]) std::swap(box.mb[r.below(box.mb.size())],m[b]); if(s[a]) std::swap(box.sb[r.below(box.sb.size())],s[a]); break; }
            case 2: c[a]=c[b]; break; case 3: m[a]=m[b]; break; case 4: s[a]=s[b]; break;
            case 5: if(a!=b) c[a]=std::move(c[b]); break; case 6: if(a!=b) m[a]=std::move(m[b]); break; case 7: if(a!=b) s[a]=std::move(s[b]); break;
            case 8: c[a].clear(); break; case 9: m[a].reset(); break; case 10: s[a]=SharedBuffer(); break;
            case 11: { SharedBuffer x=mk(next++); s[a]=x; m[b]=ManagedBuffer(x); break; }
            case 12: c[a]=m[b]?BufferChunk(m[b]):BufferChunk(); break;
            case 13: if(s[a]){ SharedBuffer sub(s[a].getAddress(),8,s[a]); chk(sub); s[b]=sub; } break;
            case 14: { BufferChunk x(c[a]); if(x) chk(x.getBuffer()); break; }
            default: if(c[a]) chk(c[a].getBuffer()); if(m[a]) chk(m[a].getBuffer()); chk(s[a]); }
            SIM_CHECK(!m[a]||m[a].useCount()>=1,"C21","use count","a held managed buffer reports use count 0");
        } });
    for(auto&t:th) t.join();
    for(auto&x:box.mb){ size_t n=0; for(auto&y:box.mb) n+=y==x; for(auto&y:box.c) n+=y.getManagedBuffer()==x; if(x) SIM_CHECK(x.useCount()==n&&x.unique()==(n==1),"C21","use count","managed buffer reports %zu uses, %zu exist",x.useCount(),n); }
    for(auto&x:box.sb) if(x){ size_t n=0; for(auto&y:box.sb) n+=y==x; std::vector<ManagedBuffer> ms(box.mb); for(auto&y:box.c) ms.push_back(y.getManagedBuffer()); for(size_t q=0;q<ms.size();q++){ bool dup=false; for(size_t w=0;w<q;w++) dup|=ms[w]==ms[q]; if(!dup&&ms[q]&&ms[q].getBuffer()==x) n++; } SIM_CHECK(x.useCount()==n,"C21","use count","shared buffer reports %zu uses, %zu exist",x.useCount(),n); }
    box.c.clear(); box.mb.clear(); box.sb.clear();
    SIM_CHECK(reg->made==reg->gone,"C21","not released","%d memories created, %d released after every reference was dropped",reg->made,reg->gone);
}
// a producer cycles the buffers of a manager; consumers hold, copy, slice and release them late and out of order
void manager(int nt,int nops)
{
    using namespace Pothos; const int nbuf=(int)sim::param("numBuffers",1,4); const bool circ=sim::param("circular",0,3)==0; BufferManagerArgs args; args.numBuffers=nbuf; args.bufferSize=circ?1024:64; const int partial=(int)sim::param("partial",0,2);
    struct Q { std::mutex m; std::vector<ManagedBuffer> back; struct It{ BufferChunk c; std::vector<ull> want; }; std::deque<It> out; } q; 
    if(circ) sim::kern::enable(true); auto mgr=BufferManager::make(circ?"circular":"generic",args); std::map<const void*,int> inFlight; std::atomic<int> returned(0);
    mgr->setCallback([&](const ManagedBuffer&b){ std::lock_guard<std::mutex> l(q.m); q.back.push_back(b); returned++; });
    std::atomic<bool> done(false); std::vector<std::thread> th; std::vector<uint64_t> seeds; for(int i=0;i<=nt;i++) seeds.push_back(sim::rnd());
    std::atomic<long> produced(0),consumed(0); int popped=0; const int total=nops*2; 
    for(int i=0;i<nt;i++) th.emplace_back([&,i]{
        LRng r(seeds[i]); std::vector<Q::It> held;
        auto verify=[&](const Q::It&x){ const ull*p=x.c.as<const ull*>(); for(size_t k=0;k<x.want.size();k++){ sim::hb_read(p+k,"C07","held buffer contents"); SIM_CHECK(p[k]==x.want[k],"C07","held buffer overwritten","a held buffer changed from %llx to %llx",x.want[k],p[k]); } };
        for(;;){
            bool got=false; { std::lock_guard<std::mutex> l(q.m); if(!q.out.empty()&&held.size()<3){ held.push_back(q.out.front()); q.out.pop_front(); got=true; } }
            if(got) consumed++;
            if(!held.empty()&&r.chance(1,2)){ size_t k=r.below(held.size()); verify(held[k]); if(r.chance(1,3)){ Q::It c=held[k]; c.c=BufferChunk(held[k].c.getManagedBuffer()); } if(sim::fault(sim::F_LATE_RELEASE,1,6)) sim::sleep_ns(sim::fault_value(sim::F_LATE_RELEASE,2000000)); held.erase(held.begin()+k); }
            if(!got&&held.empty()&&done&&consumed==produced) break; if(!got) sim::sleep_ns(30000);
        } });
    { LRng r(seeds[nt]); ull seq=1; int idle=0;
      for(int n=0;n<total;){
        { std::vector<ManagedBuffer> b; { std::lock_guard<std::mutex> l(q.m); b.swap(q.back); } for(auto&x:b) mgr->push(x); }
        if(mgr->empty()){ sim::count("producer out of buffers"); sim::sleep_ns(40000); continue; }
        BufferChunk f=mgr->front(); SIM_CHECK(bool(f)&&f.length>=8&&f.length<=args.bufferSize,"C07","bad front buffer","front buffer has %zu bytes of %zu",f.length,(size_t)args.bufferSize);
        size_t el=std::min<size_t>(f.length/8,circ?6:8), use=partial?1+r.below(el):el; if(use==el&&!circ) use=f.length/8; Q::It it; ull*p=f.as<ull*>(); for(size_t k=0;k<use;k++){ ull v=seq++; sim::hb_write(p+k,"C07","buffer contents"); p[k]=v; it.want.push_back(v); }
        it.c=f; it.c.length=use*8; 
        size_t pop=(circ&&use==el)?f.length:use*8; f=BufferChunk(); mgr->pop(pop); popped++;
        { std::lock_guard<std::mutex> l(q.m); q.out.push_back(std::move(it)); size_t distinct; std::set<const void*> d; for(auto&x:q.out) d.insert((const void*)x.c.getBuffer().getAddress()); distinct=d.size(); SIM_CHECK(distinct<=(size_t)nbuf,"C07","too many buffers in flight","%zu buffers are in flight, %d were configured",distinct,nbuf); }
        produced++; n++; (void)idle; }
    }
    done=true; for(auto&t:th) t.join();
    // everything came back: all buffers are available again
    { std::vector<ManagedBuffer> b; { std::lock_guard<std::mutex> l(q.m); b.swap(q.back); } for(auto&x:b) mgr->push(x); } int avail=0; std::set<ManagedBuffer> uniq; std::vector<BufferChunk> keep; for(int k=0;k<nbuf+2&&!mgr->empty();k++){ BufferChunk f=mgr->front(); uniq.insert(f.getManagedBuffer()); keep.push_back(f); mgr->pop(args.bufferSize-(size_t)(f.address-f.getBuffer().getAddress())); avail++; }
    SIM_CHECK(avail==nbuf&&(int)uniq.size()==nbuf,"C07","buffer lost","%d of %d buffers are available after every reference was dropped",avail,nbuf);
    // the manager goes away before the last references do
    if(sim::param("orphan",0,1)){ q.back.clear(); mgr.reset(); keep.clear(); } else { mgr->setCallback(std::function<void(const ManagedBuffer&)>()); keep.clear(); mgr.reset(); }
}
void pool(int nt,int nops)
{
    using namespace Pothos; BufferPool p; struct Q { std::mutex m; struct It{ BufferChunk c; ull v; }; std::deque<It> q; } q; std::atomic<bool> done(false); std::vector<std::thread> th; std::vector<uint64_t> seeds; for(int i=0;i<=nt;i++) seeds.push_back(sim::rnd());
    for(int i=0;i<nt;i++) th.emplace_back([&,i]{ LRng r(seeds[i]); std::vector<Q::It> h;
        for(;;){ bool got=false; { std::lock_guard<std::mutex> l(q.m); if(!q.q.empty()){ h.push_back(q.q.front()); q.q.pop_front(); got=true; } }
            if(!h.empty()&&r.chance(1,2)){ size_t k=r.below(h.size()); const ull*x=h[k].c.as<const ull*>(); sim::hb_read(x,"C07","pooled buffer contents"); SIM_CHECK(*x==h[k].v,"C07","pooled buffer reused while held","held buffer changed from %llx to %llx",h[k].v,*x); if(r.chance(1,3)){ BufferChunk c2(h[k].c); h[k].c=std::move(c2); } h.erase(h.begin()+k); }
            if(!got){ if(done&&h.empty()) break; sim::sleep_ns(20000); } } });
    LRng r(seeds[nt]); ull v=1; size_t sz=64; for(int n=0;n<nops*3;n++){ if(r.chance(1,12)) sz=r.chance(1,2)?64:r.range(8000,20000); const BufferChunk&c=p.get(sz); SIM_CHECK(c.length>=sz,"C07","pool buffer too small","asked for %zu bytes, got %zu",sz,c.length); ull*x=c.as<ull*>(); sim::hb_write(x,"C07","pooled buffer contents"); *x=v; { std::lock_guard<std::mutex> l(q.m); q.q.push_back({c,v}); } v++; if(r.chance(1,2)) sim::sleep_ns(r.below(60000)); if(r.chance(1,30)) p.clear(); }
    done=true; for(auto&t:th) t.join();
}
}
SIM_WORLD(refs)
{
    sim::set_caps(120000,600000); sim::enable_fault(sim::F_LATE_RELEASE);
    reg=new Reg(); const int nt=(int)sim::param("threads",1,5), nops=(int)sim::param("ops",2,40); const bool b=sim::property_is("C07"); int mode=(int)sim::param("mode",0,3);
    if(sim::property_is("C21")) mode=mode&1; else if(b) mode=2+(mode&1);
    static const char*const nm[]={"objects","buffers","manager","pool"}; sim::count(nm[mode]);
    if(mode==0) objects(nt,nops); else if(mode==1) buffers(nt,nops); else if(mode==2) manager(nt,nops); else pool(nt,nops);
    delete reg;
}
