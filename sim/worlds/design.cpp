// World "design" (C37): several threads make, run and release designs described in JSON at once; the reference model evaluates the
// same description on its own.  Factories and calls fail at arbitrary points, descriptions are broken or cut off.
#include "common.hpp"
#include <algorithm>

namespace {
const char*const P="C37";
// what the blocks of one description were seen to do; the first argument of every factory names the description
struct Made { std::string kind; std::vector<std::string> did; Pothos::Block*b=nullptr; };
struct Spec { int tag; std::deque<Made> made; std::string failedAt; bool refused=false; std::map<std::string,std::set<uint64_t>> served; };
std::map<int,Spec*> specs; std::map<int,int> live; // by tag
Spec*spec(int tag){ auto it=specs.find(tag); return it==specs.end()?nullptr:it->second; }
Made*enter(int tag,const char*kind,const std::string&args){ sim::NoSched q; auto s=spec(tag); if(!s) return nullptr; s->made.push_back(Made{kind,{args},nullptr}); return &s->made.back(); }
struct Refuse : std::runtime_error { Refuse():std::runtime_error("injected refusal"){} };
void mayRefuse(int tag){ if(sim::fault(sim::F_CALL_THROW,1,25)){ { sim::NoSched q; if(auto s=spec(tag)) s->refused=true; } throw Refuse(); } if(sim::chance(1,4)) sim::yield(); }
struct DB : Pothos::Block
{
    int tag; long add; Made*m; std::string pool; LRng rng;
    DB(int t,long a,Made*m_):tag(t),add(a),m(m_),rng(sim::rnd()){ sim::NoSched q; live[t]++; if(m) m->b=this; registerCall(this,"bump",&DB::bump); registerCall(this,"say",&DB::say); registerCall(this,"fail",&DB::fail); }
    ~DB(){ sim::NoSched q; live[tag]--; if(m) m->b=nullptr; }
    void bump(const int x){ mayRefuse(tag); add=add*2+x; sim::NoSched q; if(m) m->did.push_back("bump "+std::to_string(x)); }
    void say(const std::string&x,const std::vector<int>&v){ mayRefuse(tag); sim::NoSched q; std::string s="say "+x; for(int i:v) s+=" "+std::to_string(i); if(m) m->did.push_back(s); }
    void fail(const int){ { sim::NoSched q; if(auto s=spec(tag)) s->refused=true; } throw Refuse(); }
    void serve(){ sim::NoSched q; if(auto s=spec(tag)) s->served[getName()].insert(sim::serial()); }
};
struct Src : DB { int n,mul,at=0; Src(int t,int n_,int k,Made*m):DB(t,k,m),n(n_){ mul=k; setupOutput(0,Pothos::DType(typeid(ull))); setupOutput("aux",Pothos::DType(typeid(ull))); }
    void work() override { serve(); size_t k=std::min<size_t>(output(0)->elements(),(size_t)std::min<int>(n-at,(int)rng.range(1,6))); ull*p=output(0)->buffer().as<ull*>(); for(size_t i=0;i<k;i++) p[i]=(ull)((at+(long)i)*add); if(k) output(0)->produce(k); at+=(int)k; if(at<n) this->yield(); }
    static Pothos::Block*make(const int t,const int n,const int k){ auto m=enter(t,"src",std::to_string(n)+" "+std::to_string(k)); mayRefuse(t); return new Src(t,n,k,m); } };
struct Mid : DB { Mid(int t,long a,Made*m):DB(t,a,m){ setupInput(0,Pothos::DType(typeid(ull))); setupOutput(0,Pothos::DType(typeid(ull))); }
    void work() override { serve(); size_t k=std::min(input(0)->elements(),output(0)->elements()); const ull*p=input(0)->buffer().as<const ull*>(); ull*q=output(0)->buffer().as<ull*>(); for(size_t i=0;i<k;i++) q[i]=p[i]+(ull)add; if(k){ input(0)->consume(k); output(0)->produce(k); } }
    static std::shared_ptr<Pothos::Block> make(const int t,const int a){ auto m=enter(t,"mid",std::to_string(a)); mayRefuse(t); return std::make_shared<Mid>(t,a,m); }
    static Pothos::Object any(const Pothos::Object*a,const size_t n){ const int t=a[0].convert<int>(); long s=0; std::string d; for(size_t i=1;i<n;i++){ s+=a[i].convert<int>(); d+=(i>1?" ":"")+std::to_string(a[i].convert<int>()); } auto m=enter(t,"any",d); mayRefuse(t); return Pothos::Object(std::shared_ptr<Pothos::Block>(std::make_shared<Mid>(t,s,m))); } };
struct Sink : DB { std::vector<ull>*got; std::vector<ull> mine; Sink(int t,Made*m):DB(t,0,m),got(&mine){ setupInput(0,Pothos::DType(typeid(ull))); }
    void work() override { serve(); size_t k=input(0)->elements(); const ull*p=input(0)->buffer().as<const ull*>(); { sim::NoSched q; got->insert(got->end(),p,p+k); } if(k) input(0)->consume(k); }
    static std::shared_ptr<Pothos::Block> make(const int t){ auto m=enter(t,"sink",""); mayRefuse(t); return std::make_shared<Sink>(t,m); } };
// a factory of hierarchical blocks
struct Pair { static std::shared_ptr<Pothos::Topology> make(const int t,const int a,const int b){ auto m=enter(t,"pair",std::to_string(a)+" "+std::to_string(b)); mayRefuse(t); auto top=Pothos::Topology::make(); auto x=std::make_shared<Mid>(t,a,nullptr), y=std::make_shared<Mid>(t,b,nullptr); (void)m; top->connect(top,0,BlockPtr(x),0); top->connect(BlockPtr(x),0,BlockPtr(y),0); top->connect(BlockPtr(y),0,top,0); return top; } };
Pothos::Block*bad(const int t){ enter(t,"bad",""); { sim::NoSched q; if(auto s=spec(t)) s->refused=true; } throw Refuse(); }
static Pothos::BlockRegistry r1("/sim/d_src",&Src::make), r2("/sim/d_mid",&Mid::make), r3("/sim/d_sink",&Sink::make), r4("/sim/d_any",Pothos::Callable(&Mid::any)), r5("/sim/d_pair",&Pair::make), r6("/sim/d_bad",&bad);

// the reference: a description and what it means
struct Ref { std::string kind,id,pool; std::vector<std::string> did; long add=0; int n=0; };
struct Desc { std::string json; std::vector<Ref> blocks; std::map<std::string,int> pools; std::vector<std::pair<int,int>> conns; int broken=-1; std::string brokenId; bool open=false; int first=-1,last=-1; };
struct Vars { std::vector<std::pair<std::string,long>> v; long get(const std::string&n)const{ for(size_t i=v.size();i-->0;) if(v[i].first==n) return v[i].second; return 0; } };
std::string quote(const std::string&s){ std::string o="\""; for(char c:s){ if(c=='"'||c=='\\') o+='\\'; o+=c; } return o+"\""; }
// an expression and its value
std::pair<std::string,long> expr(LRng&r,const Vars&vars)
{
    const long k=(long)r.range(0,9); const int how=(int)r.below(5); if(how==0||vars.v.empty()) return {std::to_string(k),k};
    const std::string n=vars.v[r.below(vars.v.size())].first; const long v=vars.get(n);
    switch(how){ case 1: return {quote(n),v}; case 2: return {quote(n+"+"+std::to_string(k)),v+k}; case 3: return {quote("2*("+n+"-"+std::to_string(k)+")"),2*(v-k)}; default: return {quote(std::to_string(k)+"-"+n),k-v}; }
}
std::string variables(LRng&r,Vars&vars,int n,bool asMap)
{
    std::string s=asMap?"{":"["; std::set<std::string> used;
    for(int i=0;i<n;i++){ std::string name="v"+std::to_string(asMap?i:(int)r.below(5)); if(asMap&&!used.insert(name).second) continue; auto e=expr(r,vars); s+=(i?",":"")+(asMap?quote(name)+":"+e.first:"{\"name\":"+quote(name)+",\"value\":"+e.first+"}"); vars.v.push_back({name,e.second}); }
    return s+(asMap?"}":"]");
}
enum Broken { NO_PATH_REG, BAD_FACTORY, ARG_COUNT, CALL_THROWS, CALL_UNKNOWN, POOL_UNKNOWN, ID_MISSING, PATH_MISSING, CONN_ID, CONN_SIZE, CUT, CONN_TYPE, BLOCK_TYPE, ARG_TYPE, NBROKEN };
Desc describe(LRng&r,int tag,int broken,bool open)
{
    Desc d; d.broken=broken; d.open=open; Vars globals; std::string g=variables(r,globals,(int)r.below(4),r.chance(1,4));
    std::string pools; const int np=(int)r.below(3); for(int i=0;i<np;i++){ std::string name=i==0&&r.chance(1,3)?"":"pool"+std::to_string(i); int nth=(int)r.below(3); d.pools[name]=nth; pools+=std::string(i?",":"")+quote(name)+":{\"numThreads\":"+std::to_string(nth)+(r.chance(1,2)?",\"yieldMode\":\"CONDITION\"":"")+"}"; }
    const int nmid=(int)r.below(4), nsink=open?0:(int)r.range(1,2); std::vector<std::string> kinds; if(!open) kinds.push_back("src"); for(int i=0;i<nmid||(open&&i<1);i++){ static const char*k[]={"mid","any","pair"}; kinds.push_back(k[r.below(3)]); } for(int i=0;i<nsink;i++) kinds.push_back("sink");
    const int at=(int)r.below(kinds.size()); std::string blocks;
    for(size_t i=0;i<kinds.size();i++){
        Ref b; b.kind=kinds[i]; b.id="block"+std::to_string(i)+(r.chance(1,3)?" x":""); Vars vars=globals; const int nl=(int)r.below(3); std::string loc; if(nl) loc=",\"locals\":"+variables(r,vars,nl,r.chance(1,4));
        const bool here=broken>=0&&(int)i==at; std::string args=std::to_string(tag), did; long sum=0; int na=b.kind=="src"||b.kind=="pair"?2:b.kind=="mid"?1:b.kind=="any"?(int)r.below(4):0;
        for(int k=0;k<na;k++){ auto e=expr(r,vars); if(b.kind=="src"&&k==0){ b.n=(int)r.range(1,25); e={r.chance(1,2)?std::to_string(b.n):quote(std::to_string(b.n-1)+"+1"),b.n}; } else sum+=e.second; args+=","+e.first; did+=(k?" ":"")+std::to_string(e.second); }
        if(here&&broken==ARG_COUNT&&b.kind!="any") args+=",1"; if(here&&broken==ARG_TYPE) args="\"not a number at all\"";
        b.did.push_back(did); b.add=sum; std::string calls; const int nc=b.kind=="pair"?0:(int)r.below(4);
        for(int k=0;k<nc;k++){ std::string c; if(r.chance(2,3)){ auto e=expr(r,vars); c="[\"bump\","+e.first+"]"; b.did.push_back("bump "+std::to_string(e.second)); b.add=b.add*2+e.second; }
            else { static const std::pair<const char*,const char*> w[]={{"hello world","hello world"},{"\"1+1\"","1+1"},{"nothing_like_it","nothing_like_it"}}; auto&x=w[r.below(3)]; auto e=expr(r,vars); c="[\"say\","+quote(x.first)+",["+std::to_string(k)+","+(e.first[0]=='"'?std::to_string(e.second):e.first)+"]]"; b.did.push_back(std::string("say ")+x.second+" "+std::to_string(k)+" "+std::to_string(e.second)); }
            calls+=(calls.empty()?"":",")+c; }
        if(here&&b.kind!="pair"&&(broken==CALL_THROWS||broken==CALL_UNKNOWN)) calls+=(calls.empty()?"":",")+std::string(broken==CALL_THROWS?"[\"fail\",1]":"[\"noSuchCall\",1]");
        if(np&&r.chance(1,2)){ auto it=d.pools.begin(); std::advance(it,r.below(d.pools.size())); b.pool=it->first; }
        std::string pl=b.pool.empty()?"":",\"threadPool\":"+quote(b.pool); if(here&&broken==POOL_UNKNOWN) pl=",\"threadPool\":\"no such pool\"";
        std::string path="/sim/d_"+b.kind; if(here&&broken==NO_PATH_REG) path="/sim/d_unknown"; if(here&&broken==BAD_FACTORY){ path="/sim/d_bad"; args=std::to_string(tag); }
        if(here) d.brokenId=b.id;
        std::string s=here&&broken==BLOCK_TYPE?"[]":"{"+std::string(here&&broken==ID_MISSING?"\"ident\"":"\"id\"")+":"+quote(b.id)+","+(here&&broken==PATH_MISSING?"\"p\"":"\"path\"")+":"+quote(path)+",\"args\":["+args+"]"+loc+pl+(calls.empty()?r.chance(1,2)?",\"calls\":[]":"":",\"calls\":["+calls+"]")+"}";
        blocks+=(i?",":"")+s; d.blocks.push_back(b); }
    // a chain, and further sinks at any of its stages
    std::string conns; std::vector<int> stages; auto conn=[&](const std::string&a,const std::string&ap,const std::string&b,const std::string&bp){ conns+=(conns.empty()?"":",")+std::string("[")+quote(a)+","+ap+","+quote(b)+","+bp+"]"; };
    auto port=[&]{ return r.chance(1,2)?"0":"\"0\""; }; static const char*selfs[]={"self","this",""}; int prev=-1;
    for(size_t i=0;i<kinds.size();i++){ if(kinds[i]=="sink"){ int from=i+1<kinds.size()||stages.size()<2?stages.back():stages[r.below(stages.size())]; d.conns.push_back({from,(int)i}); conn(d.blocks[from].id,port(),d.blocks[i].id,port()); continue; }
        if(prev<0&&open){ conn(selfs[r.below(3)],"\"x\"",d.blocks[i].id,port()); d.first=(int)i; } if(prev>=0){ d.conns.push_back({prev,(int)i}); conn(d.blocks[prev].id,port(),d.blocks[i].id,port()); } prev=(int)i; stages.push_back(prev); }
    if(open){ d.last=prev; conn(d.blocks[prev].id,port(),selfs[r.below(3)],"\"y\""); }
    if(broken==CONN_ID) conns+=(conns.empty()?"":",")+std::string("[\"nobody\",0,")+quote(d.blocks[0].id)+",0]"; if(broken==CONN_SIZE) conns+=(conns.empty()?"":",")+std::string("[")+quote(d.blocks[0].id)+",0,1]"; if(broken==CONN_TYPE) conns+=(conns.empty()?"":",")+std::string("{}");
    std::vector<std::string> parts; if(!pools.empty()||r.chance(1,2)) parts.push_back("\"threadPools\":{"+pools+"}"); if(!globals.v.empty()||r.chance(1,2)) parts.push_back("\"globals\":"+g); parts.push_back("\"blocks\":["+blocks+"]"); parts.push_back("\"connections\":["+conns+"]");
    for(size_t i=parts.size();i>1;i--) std::swap(parts[i-1],parts[r.below(i)]); d.json="{"; for(size_t i=0;i<parts.size();i++) d.json+=(i?",":"")+parts[i]; d.json+="}";
    if(broken==CUT) d.json.resize(1+r.below(d.json.size()-1));
    return d;
}
std::vector<ull> expected(const Desc&d,int block,const std::vector<ull>&in)
{
    if(d.blocks[block].kind=="src"){ std::vector<ull> v; for(int i=0;i<d.blocks[block].n;i++) v.push_back((ull)((long)i*d.blocks[block].add)); return v; }
    std::vector<ull> v; bool found=false; for(auto&c:d.conns) if(c.second==block){ v=expected(d,c.first,in); found=true; } if(!found) v=in;
    if(d.blocks[block].kind!="sink") for(auto&x:v) x+=(ull)d.blocks[block].add; return v;
}
void oneDesign(LRng&r,int tag)
{
    Spec sp; sp.tag=tag; { sim::NoSched q; specs[tag]=&sp; live[tag]=0; }
    const int broken=r.chance(1,3)?(int)r.below(NBROKEN):-1; Desc d=describe(r,tag,broken,broken<0&&r.chance(1,3)); sim::note("design %d: %s",tag,d.json.c_str());
    const bool mustFail=broken>=0&&!(broken==ARG_COUNT&&d.blocks.size()&&[&]{ for(auto&b:d.blocks) if(b.id==d.brokenId) return b.kind=="any"; return false; }())&&!((broken==CALL_THROWS||broken==CALL_UNKNOWN)&&[&]{ for(auto&b:d.blocks) if(b.id==d.brokenId) return b.kind=="pair"; return false; }());
    {
    std::shared_ptr<Pothos::Topology> top; std::string why;
    try { top=Pothos::Topology::make(d.json); } catch(const Pothos::Exception&e){ why=e.displayText(); if(why.empty()) why="?"; }
    catch(const std::exception&e){ sim::violate(P,"wrong exception","making design %d failed with '%s'",tag,e.what()); }
    if(!top){
        sim::count("designs refused"); SIM_CHECK(mustFail||sp.refused,P,"design not made","a correct description is refused: %s",why.c_str());
        { sim::NoSched q; SIM_CHECK(live[tag]==0,P,"blocks left behind","%d blocks of a design that was refused (%s) still exist",live[tag],why.c_str());
          if(sp.refused||broken==NO_PATH_REG||broken==CALL_UNKNOWN||broken==POOL_UNKNOWN||broken==PATH_MISSING||broken==ARG_TYPE){ bool named=false; for(auto&b:d.blocks) if(why.find(b.id)!=std::string::npos) named=true; SIM_CHECK(named,P,"failure not named","'%s' does not say which block failed",why.c_str()); }
          specs.erase(tag); }
        return; }
    SIM_CHECK(!mustFail&&!sp.refused,P,"failure not noticed","a design was made although %s",mustFail?"its description is broken":"a factory or call failed");
    // every block was made once, in the described order, with its arguments and calls
    { sim::NoSched q; size_t k=0; SIM_CHECK(sp.made.size()==d.blocks.size(),P,"wrong blocks","%zu blocks were made instead of %zu",sp.made.size(),d.blocks.size());
      for(auto&b:d.blocks){ auto&m=sp.made[k++]; std::string a,w; for(auto&x:m.did) a+=x+"; "; for(auto&x:b.did) w+=x+"; "; SIM_CHECK(m.kind==b.kind&&a==w,P,"wrong arguments","block %s is a %s made with [%s] instead of a %s with [%s]",b.id.c_str(),m.kind.c_str(),a.c_str(),b.kind.c_str(),w.c_str());
          if(m.b) SIM_CHECK(m.b->getName()==b.id,P,"wrong name","block %s is named %s",b.id.c_str(),m.b->getName().c_str()); } }
    auto poolsRight=[&](const char*when){ sim::NoSched q; for(size_t i=0;i<d.blocks.size();i++) for(size_t j=0;j<i;j++){ auto a=sp.made[i].b,b=sp.made[j].b; if(!a||!b) continue; const bool hasA=d.pools.count(d.blocks[i].pool), hasB=d.pools.count(d.blocks[j].pool); if(!hasA||!hasB) continue;
        SIM_CHECK((a->getThreadPool()==b->getThreadPool())==(d.blocks[i].pool==d.blocks[j].pool),P,"wrong thread pool","%s the blocks %s and %s, of pools '%s' and '%s', %s a pool",when,d.blocks[i].id.c_str(),d.blocks[j].id.c_str(),d.blocks[i].pool.c_str(),d.blocks[j].pool.c_str(),a->getThreadPool()==b->getThreadPool()?"share":"do not share"); } };
    poolsRight("after make");
    if(r.chance(3,4)){ sim::count("designs run");
        std::vector<ull> got, in; std::shared_ptr<Sink> snk; std::shared_ptr<Src> src; std::shared_ptr<Pothos::Topology> outer;
        if(d.open){ outer=Pothos::Topology::make(); const int n=(int)r.range(1,20); src=std::make_shared<Src>(-1-tag,n,3,nullptr); snk=std::make_shared<Sink>(-1-tag,nullptr); for(int i=0;i<n;i++) in.push_back((ull)(i*3)); outer->connect(BlockPtr(src),0,top,"x"); outer->connect(top,"y",BlockPtr(snk),0); outer->commit(); }
        else top->commit();
        if(r.chance(1,2)) poolsRight("after commit");
        std::vector<std::pair<Sink*,std::vector<ull>>> sinks; if(d.open) sinks.push_back({snk.get(),expected(d,d.last,in)}); else for(size_t i=0;i<d.blocks.size();i++) if(d.blocks[i].kind=="sink") sinks.push_back({(Sink*)sp.made[i].b,expected(d,(int)i,in)});
        waitUntil([&]{ sim::NoSched q; for(auto&s:sinks) if(s.first->got->size()<s.second.size()) return false; return true; }); if(r.chance(1,2)) sim::sleep_ns(2000000);
        { sim::NoSched q; for(auto&s:sinks){ SIM_CHECK(s.first->got->size()==s.second.size(),P,"wrong connections","a sink received %zu elements instead of %zu",s.first->got->size(),s.second.size()); for(size_t i=0;i<s.second.size();i++) SIM_CHECK((*s.first->got)[i]==s.second[i],P,"wrong connections","element %zu of a sink is %lld instead of %lld",i,(long long)(*s.first->got)[i],(long long)s.second[i]); }
          // the threads of a pool: no more than it may have, and none of another pool
          std::map<std::string,std::set<uint64_t>> by; for(auto&b:d.blocks) if(b.kind!="pair"&&d.pools.count(b.pool)) by[b.pool].insert(sp.served[b.id].begin(),sp.served[b.id].end());
          for(auto&p:by){ if(d.pools[p.first]) SIM_CHECK((int)p.second.size()<=d.pools[p.first],P,"wrong thread pool","%zu threads served pool '%s', which has %d",p.second.size(),p.first.c_str(),d.pools[p.first]); for(auto&o:by) if(o.first!=p.first) for(auto t:o.second) SIM_CHECK(!p.second.count(t),P,"wrong thread pool","a thread served the pools '%s' and '%s'",p.first.c_str(),o.first.c_str()); } }
        if(outer){ outer.reset(); snk.reset(); src.reset(); } }
    }
    sim::NoSched q; SIM_CHECK(live[tag]==0&&live[-1-tag]==0,P,"blocks left behind","%d blocks of a design that was released still exist",live[tag]); specs.erase(tag);
}
}

SIM_WORLD(design)
{
    sim::set_caps(400000,4000000); if(sim::param("faults",0,1)) sim::enable_fault(sim::F_CALL_THROW); const int nt=(int)sim::param("threads",1,3), nd=(int)sim::param("designs",1,3), churn=(int)sim::param("churn",0,2), base=sim::live_threads(); specs.clear(); live.clear();
    LRng g(sim::rnd()); std::vector<std::thread> th;
    for(int t=0;t<nt;t++){ const uint64_t sd=g.next(); th.emplace_back([=]{ LRng r(sd); for(int k=0;k<nd;k++) oneDesign(r,1+t*10+k); }); }
    // the registry changes meanwhile
    if(churn) th.emplace_back([&]{ for(int k=0;k<churn*2;k++){ const std::string path="/sim/extra"+std::to_string(k); Pothos::BlockRegistry x(path,&Sink::make); SIM_CHECK(Pothos::BlockRegistry::doesBlockExist(path),P,"block not registered","%s is not there after it was registered",path.c_str()); sim::sleep_ns(sim::rnd(3000000)); Pothos::PluginRegistry::remove("/blocks"+path); SIM_CHECK(!Pothos::BlockRegistry::doesBlockExist(path),P,"block still registered","%s is there after it was removed",path.c_str()); } });
    for(auto&t:th) t.join();
    SIM_CHECK(sim::live_threads()==base,P,"threads left behind","%d threads still run after all designs were released",sim::live_threads()-base);
}
