// World "archive" (C25): a writer serialises values into a simulated connection that fragments, delays, blocks and breaks at
// any byte, a reader deserialises them at the other end.
#include "common.hpp"
#include "simstream.hpp"
#include <Pothos/Archive.hpp>
#include <complex>
#include <limits>
#include <sstream>

namespace {
using Pothos::Object;
const char *const P="C25";
struct Val { Object o; std::function<bool(const Object&)> eq; std::string what; };

template<class T> bool same(const T&a,const T&b){ return a==b; }
bool same(const float&a,const float&b){ return !memcmp(&a,&b,sizeof a); } bool same(const double&a,const double&b){ return !memcmp(&a,&b,sizeof a); }
template<class T> bool same(const std::complex<T>&a,const std::complex<T>&b){ return same(a.real(),b.real())&&same(a.imag(),b.imag()); }
template<class T> bool same(const std::vector<T>&a,const std::vector<T>&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!same((const T&)a[i],(const T&)b[i])) return false; return true; }
bool same(const std::vector<bool>&a,const std::vector<bool>&b){ return a==b; }
template<class T> Val leaf(const T&v,const char*what){ Val r; r.o=Object(v); r.eq=[v](const Object&o){ return bool(o)&&o.type()==typeid(T)&&same(o.extract<T>(),v); }; r.what=what; return r; }

template<class T> T num(LRng&r)
{
    switch(r.below(8)){ case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return T(0); case 3: return T(-1);
    case 4: return (T)((T)1<<r.below(sizeof(T)*8)); case 5: return (T)(((T)1<<r.below(sizeof(T)*8))-1); case 6: return (T)(-((T)1<<r.below(sizeof(T)*8-1))-(T)r.below(2)); default: return (T)r.next(); }
}
template<> bool num<bool>(LRng&r){ return r.chance(1,2); }
template<> float num<float>(LRng&r){ uint32_t x=(uint32_t)r.next(); float f; memcpy(&f,&x,4); return r.chance(1,4)?std::numeric_limits<float>::infinity():r.chance(1,4)?-0.0f:f; }
template<> double num<double>(LRng&r){ uint64_t x=r.next(); double f; memcpy(&f,&x,8); return r.chance(1,4)?-std::numeric_limits<double>::infinity():f; }
template<> std::complex<float> num<std::complex<float>>(LRng&r){ float a=num<float>(r); return std::complex<float>(a,num<float>(r)); }
template<> std::complex<double> num<std::complex<double>>(LRng&r){ double a=num<double>(r); return std::complex<double>(a,num<double>(r)); }
std::string str(LRng&r){ std::string s; for(int n=(int)r.below(r.chance(1,6)?300:12);n>0;n--) s+=(char)r.next(); return s; }
template<> std::string num<std::string>(LRng&r){ return str(r); }
template<class T> std::vector<T> vec(LRng&r){ std::vector<T> v; for(int n=(int)r.below(r.chance(1,8)?140:6);n>0;n--) v.push_back(num<T>(r)); return v; }
template<class T> Val scalarOrVec(LRng&r,const char*what){ if(r.chance(1,3)) return leaf(vec<T>(r),what); return leaf(num<T>(r),what); }

Pothos::DType dtype(LRng&r){ static const char*const n[]={"int8","uint16","int32","float64","complex_float32","custom"}; return Pothos::DType(n[r.below(6)],1+r.below(4)); }
bool sameChunk(const Pothos::BufferChunk&a,const Pothos::BufferChunk&b){ if(bool(a)!=bool(b)) return false; if(!a) return true; return a.length==b.length&&a.dtype==b.dtype&&(!a.length||!memcmp(a.as<const void*>(),b.as<const void*>(),a.length)); }
Pothos::BufferChunk chunk(LRng&r){ if(r.chance(1,6)) return Pothos::BufferChunk(); Pothos::BufferChunk c(r.chance(1,5)?0:1+r.below(200)); if(r.chance(1,4)&&c.length>8){ c.address+=3; c.length-=5; } for(size_t i=0;i<c.length;i++) c.as<char*>()[i]=(char)r.next(); c.dtype=dtype(r); return c; }
Val value(LRng&r,int depth);
Val container(LRng&r,int depth)
{
    std::vector<Val> kids; const int n=(int)r.below(4); for(int i=0;i<n;i++) kids.push_back(value(r,depth+1));
    Val v;
    switch(r.below(5)){
    case 0: { Pothos::ObjectVector c; for(auto&k:kids) c.push_back(k.o); v.o=Object(c); v.what="ObjectVector"; v.eq=[kids](const Object&o){ if(!o||o.type()!=typeid(Pothos::ObjectVector)) return false; auto&x=o.extract<Pothos::ObjectVector>(); if(x.size()!=kids.size()) return false; for(size_t i=0;i<x.size();i++) if(!kids[i].eq(x[i])) return false; return true; }; break; }
    case 1: { Pothos::ObjectKwargs c; std::map<std::string,Val> m; for(auto&k:kids){ std::string key=str(r); c[key]=k.o; m[key]=k; } v.o=Object(c); v.what="ObjectKwargs"; v.eq=[m](const Object&o){ if(!o||o.type()!=typeid(Pothos::ObjectKwargs)) return false; auto&x=o.extract<Pothos::ObjectKwargs>(); if(x.size()!=m.size()) return false; for(auto&p:x){ auto it=m.find(p.first); if(it==m.end()||!it->second.eq(p.second)) return false; } return true; }; break; }
    case 2: { Pothos::ObjectMap c; std::map<int,Val> m; for(auto&k:kids){ int key=num<int>(r); c[Object(key)]=k.o; m[key]=k; } v.o=Object(c); v.what="ObjectMap"; v.eq=[m](const Object&o){ if(!o||o.type()!=typeid(Pothos::ObjectMap)) return false; auto&x=o.extract<Pothos::ObjectMap>(); if(x.size()!=m.size()) return false; for(auto&p:x){ auto it=m.find(p.first.extract<int>()); if(it==m.end()||!it->second.eq(p.second)) return false; } return true; }; break; }
    case 3: { Pothos::ObjectSet c; std::set<std::string> m; for(int i=0;i<n;i++){ std::string s=str(r); c.insert(Object(s)); m.insert(s); } v.o=Object(c); v.what="ObjectSet"; v.eq=[m](const Object&o){ if(!o||o.type()!=typeid(Pothos::ObjectSet)) return false; std::set<std::string> y; for(auto&e:o.extract<Pothos::ObjectSet>()) y.insert(e.extract<std::string>()); return y==m&&o.extract<Pothos::ObjectSet>().size()==m.size(); }; break; }
    default: { Pothos::Packet p; p.payload=chunk(r); std::map<std::string,Val> m; std::vector<Val> ld; for(auto&k:kids){ std::string key=str(r); p.metadata[key]=k.o; m[key]=k; } for(int i=0;i<2;i++){ Val d=value(r,depth+1); p.labels.emplace_back(str(r),d.o,r.below(1000),1+r.below(3)); ld.push_back(d); } v.o=Object(p); v.what="Packet"; v.eq=[p,m,ld](const Object&o){ if(!o||o.type()!=typeid(Pothos::Packet)) return false; auto&x=o.extract<Pothos::Packet>(); if(!sameChunk(x.payload,p.payload)||x.metadata.size()!=m.size()||x.labels.size()!=ld.size()) return false; for(auto&q:x.metadata){ auto it=m.find(q.first); if(it==m.end()||!it->second.eq(q.second)) return false; } for(size_t i=0;i<ld.size();i++) if(x.labels[i].id!=p.labels[i].id||x.labels[i].index!=p.labels[i].index||x.labels[i].width!=p.labels[i].width||!ld[i].eq(x.labels[i].data)) return false; return true; }; }
    }
    return v;
}
Val value(LRng&r,int depth)
{
    if(depth<3&&r.chance(1,4)) return container(r,depth);
    switch(r.below(22)){
    case 0: return scalarOrVec<bool>(r,"bool"); case 1: return scalarOrVec<char>(r,"char"); case 2: return scalarOrVec<signed char>(r,"signed char"); case 3: return scalarOrVec<unsigned char>(r,"unsigned char");
    case 4: return scalarOrVec<short>(r,"short"); case 5: return scalarOrVec<unsigned short>(r,"unsigned short"); case 6: return scalarOrVec<int>(r,"int"); case 7: return scalarOrVec<unsigned>(r,"unsigned"); case 8: return scalarOrVec<long>(r,"long"); case 9: return scalarOrVec<unsigned long>(r,"unsigned long"); case 10: return scalarOrVec<long long>(r,"long long"); case 11: return scalarOrVec<unsigned long long>(r,"unsigned long long");
    case 12: return scalarOrVec<float>(r,"float"); case 13: return scalarOrVec<double>(r,"double"); case 14: return scalarOrVec<std::complex<float>>(r,"complex float"); case 15: return scalarOrVec<std::complex<double>>(r,"complex double"); case 16: return scalarOrVec<std::string>(r,"string");
    case 17: { Val v; v.what="null"; v.eq=[](const Object&o){ return !o; }; return v; }
    case 18: { auto c=chunk(r); Val v; v.o=Object(c); v.what="BufferChunk"; v.eq=[c](const Object&o){ return bool(o)&&o.type()==typeid(Pothos::BufferChunk)&&sameChunk(o.extract<Pothos::BufferChunk>(),c); }; return v; }
    case 19: return leaf(dtype(r),"DType");
    case 20: { Pothos::PortInfo i; i.name=str(r); i.alias=str(r); i.isSigSlot=r.chance(1,2); i.dtype=dtype(r); Val v; v.o=Object(i); v.what="PortInfo"; v.eq=[i](const Object&o){ if(!o||o.type()!=typeid(Pothos::PortInfo)) return false; auto&x=o.extract<Pothos::PortInfo>(); return x.name==i.name&&x.alias==i.alias&&x.isSigSlot==i.isSigSlot&&x.dtype==i.dtype; }; return v; }
    default: { Val d=value(r,depth+1); Pothos::Label l(str(r),d.o,r.next()>>1,1+r.below(9)); Val v; v.o=Object(l); v.what="Label"; v.eq=[l,d](const Object&o){ if(!o||o.type()!=typeid(Pothos::Label)) return false; auto&x=o.extract<Pothos::Label>(); return x.id==l.id&&x.index==l.index&&x.width==l.width&&d.eq(x.data); }; return v; }
    }
}
}
SIM_WORLD(archive)
{
    sim::set_caps(600000,600000); for(int f:{sim::F_STREAM_FRAGMENT,sim::F_STREAM_DELAY,sim::F_STREAM_CUT}) sim::enable_fault((sim::FaultKind)f);
    const int n=(int)sim::param("values",1,10); LRng r(sim::rnd()); const bool cut=sim::param("cut",0,1)&&sim::fault(sim::F_STREAM_CUT,4,4); const int how=(int)sim::param("cutKind",0,2); const bool raw=sim::param("containers",0,4)==4;
    std::vector<Val> vals; std::vector<size_t> ends; size_t total=0;
    std::map<int,std::string> m; std::set<long> s; std::pair<std::string,unsigned> pr; std::vector<std::vector<short>> vv; std::wstring ws; 
    sim::nosched_begin(); sim::quiet(true);
    for(int i=0;i<n&&!raw;i++){ vals.push_back(value(r,0)); std::ostringstream o; vals.back().o.serialize(o); total+=o.str().size(); ends.push_back(total); }
    if(raw){ for(int i=0;i<n;i++){ m[num<int>(r)]=str(r); s.insert(num<long>(r)); vv.push_back(vec<short>(r)); ws+=(wchar_t)r.below(0x10000); } pr={str(r),num<unsigned>(r)}; std::ostringstream o; Pothos::Archive::OStreamArchiver a(o); a<<m; a<<s; a<<pr; a<<vv; a<<ws; total=o.str().size(); }
    sim::quiet(false); sim::nosched_end();
    Pipe p; p.cap=1+r.below(400); size_t cutAt=r.below(total+1); if(cut){ p.cutAt=cutAt; p.cutIsReset=how==1; }
    const size_t ob=r.below(3)*100, ib=1+r.below(256); bool writeFailed=false, writeLate=false; std::atomic<bool> readerStopped(false); const bool readerQuits=how==2&&cut; 
    if(readerQuits){ p.cutAt=~0ull; }
    std::thread w([&]{
        PipeOStream os(p,ob);
        try {
            if(raw){ Pothos::Archive::OStreamArchiver a(os); a<<m; a<<s; a<<pr; a<<vv; a<<ws; os.flush(); if(!os) writeLate=true; }
            else for(auto&v:vals){ v.o.serialize(os); os.flush(); if(!os) writeLate=true; if(r.chance(1,3)) sim::yield(); }
        } catch(const Pothos::Exception&){ writeFailed=true; sim::count("write error raised"); }
        p.end(); });
    bool readErr=false; size_t got=0;
    {
        PipeIStream is(p,ib);
        if(raw){
            std::map<int,std::string> m2; std::set<long> s2; std::pair<std::string,unsigned> pr2; std::vector<std::vector<short>> vv2; std::wstring ws2; int stage=0;
            try { Pothos::Archive::IStreamArchiver a(is); a>>m2; stage=1; a>>s2; stage=2; a>>pr2; stage=3; a>>vv2; stage=4; a>>ws2; stage=5; } catch(const std::exception&){ readErr=true; }
            SIM_CHECK((stage<1||m2==m)&&(stage<2||s2==s)&&(stage<3||pr2==pr)&&(stage<4||vv2==vv)&&(stage<5||ws2==ws),P,"value changed","a container was read back different from what was written");
            if(stage==5) SIM_CHECK(p.taken>=total||true,P,"read past the cut","x"); if(stage<5) SIM_CHECK(cut,P,"error without a fault","reading failed although the stream is complete"); if(!readErr&&cut&&!readerQuits) SIM_CHECK(cutAt>=total,P,"truncation not reported","containers were read although the stream ended after %zu of %zu bytes",cutAt,total);
        } else for(int i=0;i<n;i++){
            if(readerQuits&&p.taken>=cutAt){ p.stopReading(); readerStopped=true; break; }
            Object o; bool ok=false; try { o.deserialize(is); ok=true; } catch(const Pothos::Exception&){ readErr=true; SIM_CHECK(!o,P,"value after an error","a failed read left a value behind"); }
            if(ok){ SIM_CHECK(!readErr,P,"value after an error","a value was read after the stream had failed"); SIM_CHECK(!cut||readerQuits||ends[i]<=cutAt,P,"truncation not reported","value %d (%s) was read although the stream ended at byte %zu of its %zu",i,vals[i].what.c_str(),cutAt-(i?ends[i-1]:0),ends[i]-(i?ends[i-1]:0)); SIM_CHECK(vals[i].eq(o),P,"value changed","value %d (%s) was read back as something else",i,vals[i].what.c_str()); got++; }
            else SIM_CHECK(cut&&(p.cutIsReset||ends[i]>cutAt),P,"error without a fault","value %d (%s) could not be read although the stream is complete",i,vals[i].what.c_str());
        }
        if(raw&&readerQuits){ p.stopReading(); readerStopped=true; }
        if(!readErr&&!readerStopped&&!raw){ Object o; bool threw=false; try { o.deserialize(is); } catch(const Pothos::Exception&){ threw=true; } SIM_CHECK(threw,P,"truncation not reported","a value was read from the end of the stream"); }
        if(!readerStopped) p.stopReading();
    }
    w.join();
    if(!cut) SIM_CHECK(!writeFailed&&!writeLate&&(raw||got==vals.size()),P,"error without a fault","writing failed although the connection is up");
    // a writer that went on after the connection was gone was told so
    if(writeLate&&!raw&&vals.size()>0){ std::ostringstream dead; dead.setstate(std::ios::badbit); bool threw=false; try { Object(1).serialize(dead); } catch(const Pothos::Exception&){ threw=true; } SIM_CHECK(threw,P,"write error not reported","serialising to a failed stream reported success"); }
    sim::count("values read",got);
}
