// World "modules": plugin modules through a simulated dynamic loader (C31), and safe loading with probe processes, a cache file
// shared with other processes and files that are replaced underneath (C32).
// uses: proc.cpp
#include "common.hpp"
#include "proc.hpp"
#include <Pothos/Init.hpp>
#include <Pothos/System.hpp>
#include <Pothos/Util/FileLock.hpp>
#include <Pothos/Plugin/Static.hpp>
#include <algorithm>
#include <stdlib.h>

namespace {
using Pothos::PluginRegistry; using Pothos::PluginModule; using Pothos::Object; using Pothos::Plugin;
const char*P="C31";
//---------------------------------------------------------------- library files
struct Plug { std::string path; int id; };            // what a module registers
struct Image // the content of one library file, in one version
{
    std::string version; std::vector<Plug> plugs; std::string handler; bool broken=false; // broken: cannot be loaded at all
    bool lethal=false;                                  // loading it kills the process (C32)
    int64_t mtime=0; uint64_t since=0; int id=0;
};
enum { MAXF=5 };
struct File
{
    std::string path; std::vector<Image> images; // the last one is on disk
    bool loaded=false; int gen=0; int live=0;    // live: initialised image
    int ready=0;                                 // the last load that somebody saw complete
    int held=0;                                  // handles that exist and are not being dropped
    int inits=0,finis=0; std::map<std::string,int> reg; // what this load registered (plugin path -> id) and nobody removed by hand
    uint64_t loads=0;
    const Image&now() const { return images.back(); }
};
std::deque<File> F; int nextId=1;
File*byPath(const char*p){ for(auto&f:F) if(f.path==p) return &f; return nullptr; }
thread_local File*loadingFile=nullptr; thread_local const Plug*regPlug=nullptr;
struct Val { int id; };
struct Handler { File*f; int gen; static std::atomic<int> calls; // code of the module: must not run once the module is unloaded
    void operator()(const Plugin&,const std::string&) const { sim::NoSched n; SIM_CHECK(f->loaded&&f->gen==gen,P,"module code run after unload","an event handler of %s was called although the module is unloaded",f->path.c_str()); calls++; sim::count("module handler calls"); } };
std::atomic<int> Handler::calls(0);
int val(const Plugin&p){ try { return p.getObject().extract<Val>().id; } catch(const Pothos::Exception&){ return 0; } }
std::string valueString(const Val&v){ return "val"+std::to_string(v.id); }
static auto managedVal=Pothos::ManagedClass().registerClass<Val>().commit("SimModules/Val");
bool (*onLoad)(File&)=nullptr;
void initOne(){ PluginRegistry::add(regPlug->path,Val{regPlug->id}); sim::NoSched n; loadingFile->reg[regPlug->path]=regPlug->id; }
void initHandler(){ Handler h{loadingFile,loadingFile->gen}; PluginRegistry::add(loadingFile->images[loadingFile->live].handler,Pothos::Callable(std::function<void(const Plugin&,const std::string&)>(h))); sim::NoSched n; loadingFile->reg[loadingFile->images[loadingFile->live].handler]=-1; }
bool hookLoad(const char*p)
{
    File*f=byPath(p); if(!f) return false;
    if(onLoad&&!onLoad(*f)) return false;
    if(f->now().broken) return false;
    { sim::NoSched n; f->loaded=true; f->gen++; f->inits++; f->live=(int)f->images.size()-1; f->reg.clear(); }
    File*prev=loadingFile; loadingFile=f; const Image im=f->images[f->live]; // by value: the file may be replaced while it loads
    if(!im.version.empty()) Pothos::ModuleVersion v(im.version);
    if(!im.handler.empty()) Pothos::Detail::safeInit(Pothos::System::getAbiVersion(),"handler",&initHandler);
    for(auto&pl:im.plugs){ const Plug*pp=regPlug; regPlug=&pl; Pothos::Detail::safeInit(Pothos::System::getAbiVersion(),"plug",&initOne); regPlug=pp; }
    loadingFile=prev; sim::count("libraries loaded"); return true;
}
void hookUnload(const char*p)
{
    File*f=byPath(p); SIM_CHECK(f->held==0,P,"unloaded while in use","%s is unloaded although %d handles to it exist",p,f->held);
    for(auto&r:f->reg){ bool there=false; try { there=val(PluginRegistry::get(r.first))==r.second; } catch(const Pothos::PluginRegistryError&){} SIM_CHECK(!there,P,"plugins outlive their module","%s is unloaded while its plugin %s is still registered",p,r.first.c_str()); }
    sim::NoSched n; f->loaded=false; f->finis++; sim::count("libraries unloaded");
}
void addFile(const std::string&path,const Image&im){ F.emplace_back(); F.back().path=path; F.back().images.push_back(im); sim::kern::make_file(path.c_str(),"x",1,0755); }
Image image(LRng&r,int f,int nf)
{
    Image im; im.id=nextId++; im.version=r.chance(1,3)?"":"v"+std::to_string(im.id); const int np=(int)r.below(4); for(int i=0;i<np;i++) im.plugs.push_back({"/simmod/m"+std::to_string(f)+"/p"+std::to_string(i),nextId++});
    if(r.chance(1,3)) im.plugs.push_back({"/simmod/shared/s"+std::to_string(r.below(2)),nextId++}); // several modules may want this one
    if(r.chance(1,3)) im.handler="/simmod/m"+std::to_string(r.below(nf)); if(r.chance(1,5)) im.handler="/simmod"; return im;
}
//---------------------------------------------------------------- C31
// everything that holds while a handle to f exists
void checkHeld(File&f,const PluginModule&m)
{
    std::map<std::string,int> reg; std::string ver; bool ready; { sim::NoSched n; SIM_CHECK(f.loaded,P,"module not loaded","a handle to %s exists but the library is not loaded",f.path.c_str()); reg=f.reg; ver=f.images[f.live].version; ready=f.ready==f.gen; }
    SIM_CHECK(bool(m)&&m.getFilePath()==f.path,P,"wrong module","a handle to %s says it is %s",f.path.c_str(),m.getFilePath().c_str());
    const std::string mv=m.getVersion(); SIM_CHECK(mv==ver||(!ready&&mv.empty()),P,"wrong version","%s has version '%s', the handle says '%s'",f.path.c_str(),ver.c_str(),m.getVersion().c_str());
    for(auto&x:reg){
        Plugin p; try { p=PluginRegistry::get(x.first); } catch(const Pothos::PluginRegistryError&){ bool removed; { sim::NoSched n; removed=!f.reg.count(x.first); } SIM_CHECK(removed,P,"plugin missing","plugin %s is not registered although a handle to its module %s exists",x.first.c_str(),f.path.c_str()); continue; }
        if(x.second>0&&val(p)!=x.second){ bool removed; { sim::NoSched n; removed=!f.reg.count(x.first); } SIM_CHECK(removed,P,"wrong plugin","plugin %s of %s is another one",x.first.c_str(),f.path.c_str()); continue; }
        const PluginModule pm=p.getModule(); SIM_CHECK(pm.getFilePath()==f.path&&(!ready||pm.getVersion()==ver),P,"wrong attribution","plugin %s of %s is attributed to '%s' %s",x.first.c_str(),f.path.c_str(),pm.getFilePath().c_str(),pm.getVersion().c_str());
        if(!ready) continue; // the handle came from a plugin that was registered by a load still under way
        const auto&pp=m.getPluginPaths(); SIM_CHECK(std::count(pp.begin(),pp.end(),x.first)==1,P,"plugin paths","module %s lists %s %d times",f.path.c_str(),x.first.c_str(),(int)std::count(pp.begin(),pp.end(),x.first)); }
    if(ready) for(auto&x:m.getPluginPaths()) SIM_CHECK(x.compare(0,7,"/simmod")==0&&x.compare(0,9,"/simmod/t")!=0,P,"plugin paths","module %s lists %s, which it did not register",f.path.c_str(),x.c_str());
}
void scan(const Pothos::PluginRegistryInfoDump&d)
{
    const std::string&p=d.pluginPath;
    if(p.compare(0,9,"/simmod/t")==0) SIM_CHECK(d.modulePath.empty(),P,"wrong attribution","plugin %s was registered by no module, but is attributed to %s",p.c_str(),d.modulePath.c_str());
    if(p.size()>11&&p.compare(0,9,"/simmod/m")==0&&!d.modulePath.empty()){ const int k=p[9]-'0'; SIM_CHECK(d.modulePath==F[k].path,P,"wrong attribution","plugin %s is attributed to %s",p.c_str(),d.modulePath.c_str()); }
    if(p.compare(0,7,"/simmod")!=0&&p!="/") SIM_CHECK(d.modulePath.empty(),P,"wrong attribution","plugin %s is attributed to %s",p.c_str(),d.modulePath.c_str());
    for(auto&s:d.subInfo) scan(s);
}
struct Held { PluginModule m; File*f; };
// Handles are counted from when they are known to exist until the drop of one begins.
void take(std::vector<Held>&v,const PluginModule&m,File&f){ { sim::NoSched n; f.held++; } v.push_back({m,&f}); }
void drop(std::vector<Held>&v,size_t i){ Held h=std::move(v[i]); v.erase(v.begin()+i); { sim::NoSched n; h.f->held--; } }
bool load(std::vector<Held>&v,File&f,bool must=false)
{
    try { PluginModule m(f.path); SIM_CHECK(!f.now().broken,P,"broken module loaded","%s cannot be loaded, yet no error was reported",f.path.c_str()); take(v,m,f); { sim::NoSched n; f.ready=f.gen; } return true; }
    catch(const Pothos::PluginModuleError&e){ SIM_CHECK(!must||f.now().broken,P,"load failed","loading %s failed: %s",f.path.c_str(),e.displayText().c_str()); sim::count("loads failed"); return false; }
}
void handles()
{
    LRng g(sim::rnd()); const int nf=(int)sim::param("files",1,3), nt=(int)sim::param("threads",1,3), nops=(int)sim::param("ops",1,8);
    for(int f=0;f<nf;f++){ Image im=image(g,f,nf); im.broken=g.chance(1,10); addFile("/simfs/m"+std::to_string(f)+".so",im); }
    sim::proc::Hooks h{nullptr,nullptr,nullptr,&hookLoad,&hookUnload}; sim::kern::enable(true); sim::proc::enable(h); sim::enable_fault(sim::F_DLOPEN_FAIL); sim::set_heap_races(P);
    std::vector<std::vector<Held>> hand(nt); std::vector<uint64_t> seeds; for(int t=0;t<nt;t++) seeds.push_back(g.next());
    // handles the threads start with: copies of one another
    for(int f=0;f<nf;f++) if(g.chance(2,3)){ std::vector<Held> tmp; if(load(tmp,F[f])){ for(int t=0;t<nt;t++) if(g.chance(2,3)) take(hand[t],tmp[0].m,F[f]); drop(tmp,0); } }
    std::vector<std::thread> th;
    for(int t=0;t<nt;t++) th.emplace_back([&,t]{ LRng r(seeds[t]); auto&mine=hand[t]; int own=0;
        for(int k=0;k<nops;k++){ const int op=(int)r.below(12); File&f=F[r.below(nf)];
            if(op<3) load(mine,f);
            else if(op<6){ if(!mine.empty()) drop(mine,r.below(mine.size())); }
            else if(op==6){ if(!mine.empty()){ const size_t i=r.below(mine.size()); PluginModule c(mine[i].m); take(mine,c,*mine[i].f); } }
            else if(op==7){ // through a plugin
                const auto&pl=f.now().plugs; if(pl.empty()) continue; Plugin p; try { p=PluginRegistry::get(pl[r.below(pl.size())].path); } catch(const Pothos::PluginRegistryError&){ continue; }
                PluginModule m=p.getModule(); p.toString(); if(m&&r.chance(1,2)){ File*o=byPath(m.getFilePath().c_str()); SIM_CHECK(o,P,"wrong attribution","module %s",m.getFilePath().c_str()); take(mine,m,*o); } }
            else if(op==8&&r.chance(1,2)) scan(PluginRegistry::dump());
            else if(op==9){ const std::string p="/simmod/t"+std::to_string(t)+"x"+std::to_string(own++); PluginRegistry::add(p,Val{1000000+own}); if(r.chance(1,2)) sim::yield(); Plugin q=PluginRegistry::get(p); SIM_CHECK(val(q)==1000000+own&&!q.getModule(),P,"wrong attribution","a plugin registered by no module is attributed to %s",q.getModule().getFilePath().c_str()); if(r.chance(3,4)) PluginRegistry::remove(p); }
            else if(op==10&&!mine.empty()){ // somebody removes a plugin of the module by hand, and maybe puts another in its place
                Held&x=mine[r.below(mine.size())]; std::string p; { sim::NoSched n; for(auto&q:x.f->reg) if(q.second>0&&q.first.compare(0,9,"/simmod/m")==0) p=q.first; if(!p.empty()) x.f->reg.erase(p); } if(p.empty()) continue; Plugin was=PluginRegistry::remove(p); SIM_CHECK(was.getModule().getFilePath()==x.f->path,P,"wrong attribution","%s",p.c_str()); sim::count("plugins removed by hand"); }
            if(!mine.empty()&&r.chance(2,3)){ Held&x=mine[r.below(mine.size())]; checkHeld(*x.f,x.m); }
            if(r.chance(1,4)) sim::yield(); } 
        if(r.chance(1,2)) while(!mine.empty()) drop(mine,mine.size()-1); });
    for(auto&t:th) t.join();
    sim::faults_off();
    for(auto&v:hand) for(auto&x:v) checkHeld(*x.f,x.m);
    for(auto&v:hand) while(!v.empty()) drop(v,g.below(v.size()));
    scan(PluginRegistry::dump()); auto gone=[&]{ for(auto&f:F){ SIM_CHECK(f.held==0,P,"harness: held","%d",f.held); SIM_CHECK(!f.loaded&&sim::proc::loaded(f.path.c_str())==0,P,"module never unloaded","the last handle to %s is gone, but the library is still loaded",f.path.c_str()); for(auto&p:f.now().plugs) if(p.path.compare(0,9,"/simmod/m")==0) SIM_CHECK(!PluginRegistry::exists(p.path),P,"plugins outlive their module","plugin %s is still registered although no handle to its module exists",p.path.c_str()); if(!f.now().handler.empty()) SIM_CHECK(PluginRegistry::empty(f.now().handler),P,"plugins outlive their module","plugin %s is still registered although no handle to its module exists",f.now().handler.c_str()); SIM_CHECK(f.inits==f.finis,P,"module never unloaded","%s was initialised %d times and finished %d times",f.path.c_str(),f.inits,f.finis); } };
    gone();
    // and everything can be loaded again
    std::vector<Held> all; for(auto&f:F) if(load(all,f,true)){ for(auto&p:f.now().plugs) if(p.path.compare(0,9,"/simmod/m")==0) SIM_CHECK(PluginRegistry::exists(p.path),P,"plugin missing","after loading %s again its plugin %s is not registered",f.path.c_str(),p.path.c_str()); checkHeld(f,all.back().m); }
    for(auto&p:PluginRegistry::list("/simmod")) SIM_CHECK(p[0]=='m'||p[0]=='t'||p=="shared",P,"unknown plugin","%s",p.c_str());
    while(!all.empty()) drop(all,g.below(all.size())); gone();
    sim::proc::disable(); sim::kern::enable(false); F.clear();
}
//---------------------------------------------------------------- C32
struct Child { std::string path; int code; uint64_t d1,d2; bool done; }; std::map<int,Child> kids; std::map<int,std::thread> chatter; // probes that print a lot
struct Runtime { int id=1; uint64_t since=0; } rt; bool quietRun=true; std::atomic<uint64_t> tick(0);
std::set<std::pair<int,int>> proven; // image id, runtime library id: a probe of exactly these succeeded
std::map<std::pair<int,int>,uint64_t> provenAt;
bool fits(const Image&im,int lib){ return !im.broken&&!im.lethal&&(im.id%4==0||im.id%4==2||(lib%2==0)==(im.id%4==1)); } // some versions need the other runtime library
thread_local uint64_t callStart=0; thread_local bool callProbed=false, callExcused=false; thread_local const File*callFile=nullptr;
int hookLaunch(int pid,const char*cmd,const std::vector<std::string>&args,int o,int e)
{
    SIM_CHECK(std::string(cmd)==Pothos::System::getPothosUtilExecutablePath(),P,"wrong program","%s is started",cmd);
    Child c; c.code=-1; c.done=false; for(size_t i=0;i+1<args.size();i++){ if(args[i]=="--load-module") c.path=args[i+1]; if(args[i]=="--success-code") c.code=atoi(args[i+1].c_str()); }
    if(c.path.size()>2&&c.path.front()=='"'&&c.path.back()=='"') c.path=c.path.substr(1,c.path.size()-2);
    SIM_CHECK(byPath(c.path.c_str())&&c.code>0,P,"wrong probe","a probe of '%s' with success code %d",c.path.c_str(),c.code);
    c.d1=sim::chance(1,2)?sim::rnd(3000000000ull):0; c.d2=sim::chance(1,2)?sim::rnd(3000000000ull):0; { sim::NoSched n; kids[pid]=c; }
    sim::proc::pipe_write(o,"Loading\n",8);
    if(sim::chance(1,4)){ std::thread th([o,e]{ const std::string s(4000,'w'); for(int k=0;k<3;k++){ sim::proc::pipe_write(o,s.data(),s.size()); sim::proc::pipe_write(e,s.data(),s.size()); } sim::proc::pipe_close(o); sim::proc::pipe_close(e); }); sim::NoSched n; chatter[pid]=std::move(th); }
    else { sim::proc::pipe_close(o); sim::proc::pipe_close(e); }
    sim::NoSched n; callProbed=true; sim::count("probes"); return 0;
}
int hookWait(int pid)
{
    { std::thread th; { sim::NoSched n; auto it=chatter.find(pid); if(it!=chatter.end()) th=std::move(it->second); } if(th.joinable()) th.join(); }
    Child*cp; { sim::NoSched n; cp=&kids[pid]; } Child&c=*cp; if(c.d1) sim::sleep_ns(c.d1); File*f=byPath(c.path.c_str()); int im,lib; bool ok; { sim::NoSched n; im=f->now().id; lib=rt.id; ok=fits(f->now(),lib); }
    if(c.d2) sim::sleep_ns(c.d2);
    if(sim::fault(sim::F_CHILD_CRASH,1,8)){ sim::count("probes that died"); return 9; }
    sim::note("probe of %s: version %d with library %d is %s",c.path.c_str(),im,lib,ok?"good":"bad");
    if(!ok) return im%3==0?6:im%3==1?(1<<8):0; // killed by a signal, an error code, or an early exit(0)
    sim::NoSched n; if(!proven.count({im,lib})){ proven.insert({im,lib}); } return c.code<<8;
}
bool noCache=false; // the cache file cannot be read or written
bool guarded(File&f) // about to be loaded into this process
{
    sim::NoSched n; const Image&im=f.now();
    if(callFile!=&f) sim::violate(P,"wrong module","%s is loaded by a call for another file",f.path.c_str());
    if(im.since>=callStart||rt.since>=callStart){ sim::count("replaced during the call"); if(!fits(im,rt.id)) return false; return true; }
    SIM_CHECK(proven.count({im.id,rt.id}),P,"loaded without a successful probe","%s (version %d) is loaded into the process, but no probe of it with runtime library %d succeeded%s",f.path.c_str(),im.id,rt.id,fits(im,rt.id)?"":"; loading it is fatal");
    sim::count("guarded loads"); return true;
}
void attemptSafe(File&f,std::vector<Held>*keep)
{
    uint64_t t0; int im0,lib0; bool known; { sim::NoSched n; t0=callStart=++tick; callProbed=false; callFile=&f; im0=f.now().id; lib0=rt.id; auto it=provenAt.find({im0,lib0}); known=it!=provenAt.end(); }
    bool ok=false; std::string err;
    try { PluginModule m=PluginModule::safeLoad(f.path); ok=true; { sim::NoSched n; SIM_CHECK(f.loaded&&bool(m),P,"module not loaded","safeLoad(%s) returned but the library is not loaded",f.path.c_str()); } SIM_CHECK(m.getFilePath()==f.path,P,"wrong module","%s",m.getFilePath().c_str()); if(keep) keep->push_back({m,&f}); }
    catch(const Pothos::PluginModuleError&e){ err=e.displayText(); sim::count("safe loads refused"); }
    catch(const std::exception&e){ sim::violate(P,"unexpected exception type","safeLoad(%s) failed with something else than PluginModuleError: %s",f.path.c_str(),e.what()); }
    sim::NoSched n; const bool calm=f.now().id==im0&&rt.id==lib0&&f.now().since<t0&&rt.since<t0;
    if(calm){ const bool fit=fits(f.now(),rt.id);
        if(quietRun&&fit) SIM_CHECK(ok,P,"good module refused","safeLoad(%s) failed although nothing is wrong with it: %s",f.path.c_str(),err.c_str());
        if(!fit&&!f.loaded) SIM_CHECK(!ok,P,"bad module accepted","safeLoad(%s) succeeded although the file cannot be loaded",f.path.c_str());
        if(quietRun&&known&&!noCache) SIM_CHECK(!callProbed,P,"probed again","%s was probed again although neither it nor the runtime library changed since it was last found good",f.path.c_str());
        char buf[2000]; size_t bn=sim::kern::read_file("/simfs/config/Pothos/ModuleLoader.cache",buf,1999); buf[bn]=0; sim::note("safeLoad(%s): %s (version %d, library %d)%s %s; cache: %s",f.path.c_str(),ok?"done":err.c_str(),im0,lib0,callProbed?" probed":"",calm?"":"not calm",buf);
        if(ok&&callProbed&&!provenAt.count({im0,lib0})) provenAt[{im0,lib0}]=t0; }
    callFile=nullptr;
}
const char*const CACHE="/simfs/config/Pothos/ModuleLoader.cache";
std::string runtimeFile;
void safe()
{
    P="C32"; LRng g(sim::rnd()); const int nf=(int)sim::param("files",1,4), nt=(int)sim::param("threads",1,3), nops=(int)sim::param("ops",1,6), nch=(int)sim::param("changes",0,6); const int faults=(int)sim::param("faults",0,2);
    kids.clear(); chatter.clear(); noCache=sim::param("cache",0,5)==0; proven.clear(); provenAt.clear(); rt=Runtime(); tick=0; quietRun=faults==0;
    setenv("XDG_CONFIG_HOME","/simfs/config",1); sim::kern::make_dir("/simfs/config"); sim::kern::make_dir("/simfs/config/Pothos"); runtimeFile=Pothos::System::getPothosRuntimeLibraryPath(); sim::kern::make_file(runtimeFile.c_str(),"lib",3,0755); int64_t libTime=1600000000; sim::kern::set_mtime(runtimeFile.c_str(),libTime);
    static const char*const names[]={"/simfs/c/a-b.so","/simfs/c/a_b.so","/simfs/c/lib c.so","/simfs/c/a.b.so"}; int64_t clock=1600000100;
    auto fresh=[&](int f){ Image im; im.id=nextId++; im.lethal=g.chance(1,5); im.broken=g.chance(1,12); im.plugs.push_back({"/simmod/m"+std::to_string(f)+"/p",nextId+1000}); im.mtime=clock; return im; };
    for(int f=0;f<nf;f++){ addFile(names[f],fresh(f)); sim::kern::set_mtime(names[f],clock); }
    sim::proc::Hooks h{&hookLaunch,&hookWait,nullptr,&hookLoad,&hookUnload}; onLoad=&guarded; sim::kern::enable(true); sim::proc::enable(h);
    if(faults) for(int k:{sim::F_DLOPEN_FAIL,sim::F_WRITE_FAIL,sim::F_OPEN_FAIL,sim::F_LOCK_FAIL,sim::F_EINTR,sim::F_CLOSE_FAIL,sim::F_STAT_FAIL,sim::F_LAUNCH_FAIL,sim::F_CHILD_CRASH}) sim::enable_fault((sim::FaultKind)k);
    if(noCache) sim::kern::make_dir(CACHE); const bool calmCache=!noCache;
    tick=1; std::vector<uint64_t> seeds; for(int t=0;t<nt;t++) seeds.push_back(g.next()); const uint64_t cs=g.next(), os=g.next(); const bool other=sim::param("others",0,1)&&calmCache;
    std::vector<std::thread> th;
    for(int t=0;t<nt;t++) th.emplace_back([&,t]{ LRng r(seeds[t]); for(int k=0;k<nops;k++){ attemptSafe(F[r.below(nf)],nullptr); if(r.chance(1,2)) sim::sleep_ns(r.below(2000000000ull)); } });
    if(nch) th.emplace_back([&]{ LRng r(cs); for(int k=0;k<nch;k++){ sim::sleep_ns(r.below(2500000000ull)); sim::NoSched n; const int f=(int)r.below(nf+1); 
        if(f==nf){ rt.id++; rt.since=++tick; libTime++; sim::kern::set_mtime(runtimeFile.c_str(),libTime); sim::count("runtime library replaced"); continue; }
        if(r.chance(1,2)) clock+=2; Image im; im.id=nextId++; im.lethal=r.chance(1,3); im.broken=r.chance(1,8); im.plugs.push_back({"/simmod/m"+std::to_string(f)+"/p",nextId+1000}); int64_t hi=clock-1; for(auto&x:F[f].images) hi=std::max(hi,x.mtime); im.mtime=hi+1; if(r.chance(1,4)) im.mtime=F[f].images[0].mtime-(int64_t)F[f].images.size(); /* every version has a time of its own */ im.since=++tick; F[f].images.push_back(im); sim::kern::set_mtime(F[f].path.c_str(),im.mtime); sim::count("module replaced"); sim::note("%s is now version %d, time %ld",F[f].path.c_str(),im.id,(long)im.mtime); } });
    if(other) th.emplace_back([&]{ LRng r(os); try { Pothos::Util::FileLock lock(std::string(CACHE)+".lock"); for(int k=0;k<3;k++){ sim::sleep_ns(r.below(2500000000ull)); try { lock.lock(); } catch(const Pothos::Exception&){ continue; } // another process rewrites the cache, or dies half way
        char buf[4096]; size_t n=sim::kern::read_file(CACHE,buf,sizeof buf); if(n){ sim::kern::write_file(CACHE,buf,0); sim::sleep_ns(r.below(1000000)); size_t half=r.below(n); sim::kern::write_file(CACHE,buf,half); sim::sleep_ns(r.below(1000000)); if(!quietRun&&r.chance(1,2)) sim::count("cache left torn"); else sim::kern::write_file(CACHE,buf,n); } lock.unlock(); } } catch(const Pothos::Exception&){} });
    for(auto&t:th) t.join();
    sim::faults_off(); quietRun=false; // once the faults have ended every good file loads, and stays known
    for(auto&f:F){ attemptSafe(f,nullptr); if(fits(f.now(),rt.id)){ callProbed=false; callFile=&f; callStart=++tick; std::vector<Held> k; try { k.push_back({PluginModule::safeLoad(f.path),&f}); } catch(const std::exception&e){ sim::violate(P,"good module refused","safeLoad(%s) failed although nothing is wrong with it: %s",f.path.c_str(),e.what()); } SIM_CHECK(!callProbed||noCache,P,"probed again","%s was probed again although nothing changed",f.path.c_str()); } }
    SIM_CHECK(sim::proc::unreaped()==0,P,"child processes left","%zu probe processes were never waited for",sim::proc::unreaped());
    SIM_CHECK(sim::proc::open_pipes()==0,P,"pipes leaked","%zu pipe ends are still open",sim::proc::open_pipes());
    for(auto&f:F) SIM_CHECK(!f.loaded,P,"module never unloaded","%s",f.path.c_str());
    sim::proc::disable(); sim::kern::enable(false); F.clear();
}
}
SIM_WORLD(modules)
{
    sim::set_caps(600000,3000000); F.clear(); nextId=1; onLoad=nullptr; P="C31"; int mode=(int)sim::param("mode",0,1);
    if(sim::property_is("C31")) mode=0; if(sim::property_is("C32")) mode=1;
    if(mode==1) safe(); else handles();
}
