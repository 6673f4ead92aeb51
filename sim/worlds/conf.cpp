// World "conf": initialisation of the library with its modules and configuration files (C33), and blocks that are compiled when
// they are first used (C34), on a simulated file system, loader and compiler.
// uses: proc.cpp
#include "common.hpp"
#include "proc.hpp"
#include <Pothos/Init.hpp>
#include <Pothos/System.hpp>
#include <Pothos/Util/Compiler.hpp>
#include <Pothos/Util/FileLock.hpp>
#include <Pothos/Plugin/Static.hpp>
#include <algorithm>
#include <stdlib.h>

namespace {
using Pothos::PluginRegistry; using Pothos::PluginModule; using Pothos::Object; using Pothos::Plugin; using Pothos::PluginPath;
const char*P="C33"; bool faulty=false;
struct Val { int id; }; static auto managedVal=Pothos::ManagedClass().registerClass<Val>().commit("SimConf/Val");
//---------------------------------------------------------------- the installation
void dir(const char*p){ sim::kern::make_dir(p); }
void install(void)
{
    setenv("POTHOS_ROOT","/simfs/root",1); setenv("XDG_CONFIG_HOME","/simfs/config",1); setenv("XDG_DATA_HOME","/simfs/data",1); setenv("POTHOS_CONF_PATH","/simfs/conf",1); setenv("POTHOS_PLUGIN_PATH","/simfs/mods",1);
    for(const char*d:{"/simfs/root","/simfs/root/bin","/simfs/root/lib","/simfs/root/include","/simfs/config","/simfs/data","/simfs/conf","/simfs/mods","/simfs/src"}) dir(d);
    sim::kern::make_file("/simfs/root/bin/PothosUtil","x",1,0755); const std::string lib=Pothos::System::getPothosRuntimeLibraryPath(); sim::kern::make_file(lib.c_str(),"x",1,0755);
}
//---------------------------------------------------------------- ordinary modules
struct Mod { std::string path; int id; std::vector<std::string> plugs; bool bad=false; int loaded=0; }; std::deque<Mod> M;
Mod*modAt(const std::string&p){ for(auto&m:M) if(m.path==p) return &m; return nullptr; }
std::map<int,std::string> probes; std::atomic<int> nprobes(0);
struct Cc; int ccLaunch(int pid,const std::vector<std::string>&args,int o,int e); bool ccFind(int pid,int&status);
int hookLaunch(int pid,const char*cmd,const std::vector<std::string>&args,int o,int e){ if(std::string(cmd)!=Pothos::System::getPothosUtilExecutablePath()) return ccLaunch(pid,args,o,e); std::string p=args.size()>1?args[1]:""; if(p.size()>2) p=p.substr(1,p.size()-2); { sim::NoSched n; probes[pid]=p; } nprobes++; sim::proc::pipe_close(o); sim::proc::pipe_close(e); return 0; }
int hookWait(int pid){ int st; if(ccFind(pid,st)) return st; std::string p; { sim::NoSched n; p=probes[pid]; } if(sim::chance(1,2)) sim::sleep_ns(sim::rnd(300000000)); if(sim::fault(sim::F_CHILD_CRASH,1,10)) return 9; Mod*m=modAt(p); return m&&!m->bad?200<<8:6; }
//---------------------------------------------------------------- compiled modules
struct Target // one JIT configuration
{
    std::string name; std::vector<std::string> sources, factories; std::string out; // factories: without /blocks
    int loaded=0, compiling=0; std::vector<int> built; // versions of the sources in what is loaded
    bool extra=false, missing=false; // the module registers only some of its factories
    bool cached=false;              // a compilation failed in this session
    int compiles=0; int flying=0; std::vector<int> since; // calls under way, and the sources when the first of them began
};
std::deque<Target> T;
struct Source { std::string path; int version; bool broken=false; int64_t mtime=0; uint64_t vtime=0; }; std::deque<Source> S; std::atomic<uint64_t> tick(0); std::map<std::string,std::vector<std::pair<uint64_t,Source>>> history; int64_t srcClock=1600000000;
Source*srcAt(const std::string&p){ for(auto&s:S) if(s.path==p) return &s; return nullptr; }
std::string srcText(const Source&s){ return "//v"+std::to_string(s.version)+(s.broken?" broken":"")+"\n"; }
void putSource(Source&s){ const std::string t=srcText(s); sim::kern::write_file(s.path.c_str(),t.data(),t.size()); sim::kern::set_mtime(s.path.c_str(),s.mtime); }
bool parseOut(const std::string&path,std::string&target,std::vector<int>&vs){ char b[2048]; size_t n=sim::kern::read_file(path.c_str(),b,sizeof b-1); b[n]=0; std::string s(b); if(s.size()<4||s.compare(s.size()-4,4,"END\n")!=0||s.compare(0,6,"SIMSO ")) return false; size_t at=6; target=s.substr(at,s.find(' ',at)-at); at=s.find(' ',at); vs.clear(); while(s[at]==' '){ vs.push_back(atoi(s.c_str()+at+1)); at=s.find_first_of(" \n",at+1); } return true; }
struct Made : Pothos::Block { Target*t; std::string factory; std::vector<int> vs; int arg; Made(Target*t_,const std::string&f,const std::vector<int>&v,int a):t(t_),factory(f),vs(v),arg(a){ sim::yield(); } void work(void) override {} };
struct Fac { Target*t; std::string f; std::vector<int> vs; };
thread_local const Fac*regFac=nullptr; thread_local const Mod*regMod=nullptr;
Pothos::Block*makeMade(const Fac&fc,int a){ SIM_CHECK(fc.t->loaded,P,"module code run after unload","factory %s is called although its module is unloaded",fc.f.c_str()); return new Made(fc.t,fc.f,fc.vs,a); }
void regOneFac(){ PluginRegistry::add("/blocks"+regFac->f,Pothos::Callable(&makeMade).bind(*regFac,0)); }
void regOneMod(){ for(auto&p:regMod->plugs) PluginRegistry::add(p,Val{regMod->id}); }
bool hookLoad(const char*path)
{
    if(Mod*m=modAt(path)){ if(m->bad) return false; m->loaded++; const Mod*prev=regMod; regMod=m; Pothos::Detail::safeInit(Pothos::System::getAbiVersion(),"m",&regOneMod); regMod=prev; return true; }
    std::string tn; std::vector<int> vs; SIM_CHECK(parseOut(path,tn,vs),P,"incomplete module used","%s is loaded although it was never completely written (%zu bytes)",path,sim::kern::file_size(path));
    for(auto&t:T) if(t.name==tn){ if(sim::fault(sim::F_DLOPEN_FAIL,1,6)) return false; { sim::NoSched n; t.loaded++; t.built=vs; } sim::note("load of %s: version %d",tn.c_str(),vs[0]); 
        for(size_t i=0;i<t.factories.size()-(t.missing?1:0);i++){ Fac fc{&t,t.factories[i],vs}; const Fac*prev=regFac; regFac=&fc; Pothos::Detail::safeInit(Pothos::System::getAbiVersion(),"f",&regOneFac); regFac=prev; } 
        sim::count("compiled modules loaded"); return true; }
    sim::violate(P,"harness: load","%s",path); return false;
}
void hookUnload(const char*path){ if(Mod*m=modAt(path)){ m->loaded--; return; } for(auto&t:T) if(t.out==path) t.loaded--; }
// what compiling does: the versions of the sources end up in the output.  False: a compile error
std::vector<std::string> temps; // outputs of the compiler
bool compileTo(const std::vector<std::string>&sources,const std::vector<std::string>&flags,const std::vector<std::string>&includes,const std::vector<std::string>&libs,std::string&out)
{
    Target*t=nullptr; for(auto&x:T) if(x.sources==sources) t=&x; SIM_CHECK(t,P,"wrong compiler arguments","no configuration has these %zu sources",sources.size());
    { sim::NoSched n; SIM_CHECK(t->compiling==0,P,"compiled twice at once","%s is compiled by two threads at the same time",t->name.c_str()); t->compiling++; t->compiles++; SIM_CHECK(sim::kern::locks_held()>0,P,"compiled without a lock","%s is compiled while no lock keeps other processes from compiling it too",t->name.c_str()); } struct U{ Target*t; ~U(){ sim::NoSched n; t->compiling--; } } u{t};
    const std::vector<std::string> wf{"-DT="+t->name,"-DA=1","-UA"}, wi{"/simfs/conf/inc","/simfs/inc2"}; auto inOrder=[](const std::vector<std::string>&all,const std::vector<std::string>&want){ return std::search(all.begin(),all.end(),want.begin(),want.end())!=all.end(); };
    SIM_CHECK(inOrder(flags,wf)&&inOrder(includes,wi),P,"wrong compiler arguments","flags or includes of %s",t->name.c_str());
    std::string ll; for(auto&l:libs) ll+=l+" "; const size_t la=ll.find("/simfs/conf/liba.so "), lb=ll.find("lib/libb.so "); SIM_CHECK(la!=std::string::npos&&lb!=std::string::npos&&la<lb,P,"wrong compiler arguments","libraries of %s: %s",t->name.c_str(),ll.c_str());
    if(sim::chance(1,2)) sim::sleep_ns(sim::rnd(2000000000)); out="SIMSO "+t->name; bool broken=false;
    for(auto&p:sources){ sim::NoSched n; Source*s=srcAt(p); out+=" "+std::to_string(s->version); broken|=s->broken; }
    if(sim::chance(1,2)) sim::sleep_ns(sim::rnd(3000000000ull)); sim::count("compilations"); sim::note("compiled: %s",out.c_str());
    if(broken||sim::fault(sim::F_CHILD_CRASH,1,8)){ { sim::NoSched n; t->cached=true; } sim::count("compilations that failed"); out="compile error in "+t->name; return false; }
    out+="\nEND\n"; return true;
}
struct SimCompiler : Pothos::Util::Compiler
{
    bool test(void) override { return true; }
    std::string compileCppModule(const Pothos::Util::CompilerArgs&a) override
    {
        std::string out; if(!compileTo(a.sources,a.flags,a.includes,a.libraries,out)) throw Pothos::Exception("SimCompiler",out);
        const std::string tmp=this->createTempFile(".so"); { sim::NoSched n; temps.push_back(tmp); } sim::kern::write_file(tmp.c_str(),out.data(),out.size()); return tmp;
    }
};
// ... or the real compiler support with a simulated compiler process
struct Cc { std::thread th; std::atomic<bool> ended{false}; int status=0; }; std::map<int,std::shared_ptr<Cc>> ccs; bool realCc=false;
void ccMain(Cc*c,const std::vector<std::string>args,int o,int e)
{
    std::vector<std::string> sources,flags,includes,libs; std::string out; bool shared=false,pic=false,cxx=false;
    for(size_t i=0;i<args.size();i++){ const std::string&a=args[i]; if(a=="-I"&&i+1<args.size()) includes.push_back(args[++i]); else if(a=="-x"&&i+1<args.size()) cxx=args[++i]=="c++"; else if(a=="-o"&&i+1<args.size()) out=args[++i]; else if(a=="-shared") shared=true; else if(a=="-fPIC") pic=true; else if(a[0]=='-') flags.push_back(a); else if(a.size()>4&&a.compare(a.size()-4,4,".cpp")==0) sources.push_back(a); else libs.push_back(a); }
    SIM_CHECK(shared&&pic&&cxx&&!out.empty(),P,"wrong compiler arguments","the compiler is not asked for a shared library");
    { sim::NoSched n; temps.push_back(out); } std::string text; const bool ok=compileTo(sources,flags,includes,libs,text); auto say=[&](const std::string&s){ sim::proc::pipe_write(e,s.data(),s.size()); };
    if(sim::chance(1,3)) say(std::string(200+sim::rnd(9000),'w')+"\n"); if(sim::chance(1,2)) say("a warning\n");
    if(!ok){ if(sim::chance(1,2)){ sim::kern::write_file(out.c_str(),"SIMSO ",6); } say(text+"\n"); c->status=sim::chance(1,2)?1<<8:9; }
    else sim::kern::write_file(out.c_str(),text.data(),text.size());
    sim::proc::pipe_close(o); sim::proc::pipe_close(e); if(sim::chance(1,2)) sim::sleep_ns(sim::rnd(20000000)); c->ended=true;
}
int ccLaunch(int pid,const std::vector<std::string>&args,int o,int e)
{
    std::shared_ptr<Cc> c(new Cc()); { sim::NoSched n; ccs[pid]=c; } 
    if(args.size()==1&&args[0]=="--version"){ sim::proc::pipe_write(o,"cc 1\n",5); sim::proc::pipe_close(o); sim::proc::pipe_close(e); if(sim::fault(sim::F_CHILD_CRASH,1,12)){ sim::NoSched n; c->status=9; for(auto&t:T) t.cached=true; } c->ended=true; return 0; }
    Cc*p=c.get(); c->th=std::thread([p,args,o,e]{ ccMain(p,args,o,e); }); return 0;
}
int ccWait(Cc&c){ while(!c.ended) sim::sleep_ns(500000); if(c.th.joinable()) c.th.join(); return c.status; }
bool ccFind(int pid,int&status){ std::shared_ptr<Cc> c; { sim::NoSched n; auto it=ccs.find(pid); if(it==ccs.end()) return false; c=it->second; } status=ccWait(*c); return true; }
Pothos::Util::Compiler::Sptr makeCompiler(){ return Pothos::Util::Compiler::Sptr(new SimCompiler()); }
//---------------------------------------------------------------- configuration files
struct Conf { std::string path, text; std::map<std::string,std::string> map; std::vector<std::string> adds; bool good=true, clash=false; int kind=0; std::string mark; };
std::deque<Conf> C; std::mutex*callsMutex=nullptr; std::map<std::string,int> testCalls;
std::vector<PluginPath> testLoader(const std::map<std::string,std::string>&m)
{
    auto it=m.find("confFilePath"); const Conf*c=nullptr; for(auto&x:C) if(it!=m.end()&&x.path==it->second) c=&x; SIM_CHECK(c,P,"wrong configuration","a loader is called for an unknown file");
    std::map<std::string,std::string> want=c->map; want["confFilePath"]=c->path; SIM_CHECK(m==want,P,"wrong configuration","the loader of %s receives %zu properties instead of %zu, or others",c->path.c_str(),m.size(),want.size());
    { sim::NoSched n; testCalls[c->path]++; } if(sim::chance(1,3)) sim::sleep_ns(sim::rnd(1000000)); if(m.count("throw")){ if(m.at("throw")=="std") throw std::runtime_error("loader error"); throw Pothos::Exception("loader error"); }
    std::vector<PluginPath> out; for(auto&p:c->adds){ try { PluginRegistry::add(p,std::string(c->mark)); } catch(...){ for(auto&q:out) PluginRegistry::remove(q); throw; } out.push_back(p); } return out;
}
std::string jsonDesc(const std::vector<std::pair<std::string,std::vector<std::string>>>&v,const std::string&mark){ std::string s="["; for(size_t i=0;i<v.size();i++){ s+=std::string(i?",":"")+"{\"path\":\""+v[i].first+"\",\"aliases\":["; for(size_t k=0;k<v[i].second.size();k++) s+=std::string(k?",":"")+"\""+v[i].second[k]+"\""; s+="],\"mark\":\""+mark+"\"}"; } return s+"]"; }
void write(const std::string&p,const std::string&t){ sim::kern::write_file(p.c_str(),t.data(),t.size()); }
std::string blockName(LRng&r){ return "/simc/b"+std::to_string(r.below(12)); }
void makeConf(LRng&r,int i)
{
    C.emplace_back(); Conf&c=C.back(); const std::string n=std::to_string(i); c.path="/simfs/conf/c"+n+".conf"; c.mark="mark"+n+"."; auto set=[&](const std::string&k,const std::string&v){ c.map[k]=v; };
    c.kind=(int)r.below(5); if(c.kind==4&&r.chance(1,2)) c.kind=3;
    if(c.kind==0){ set("loader","block_desc"); set("json","d"+n+".json"); std::vector<std::pair<std::string,std::vector<std::string>>> v; std::set<std::string> used; const int k=1+(int)r.below(3); for(int j=0;j<k;j++){ std::string b=blockName(r); if(!used.insert(b).second) continue; std::vector<std::string> al; if(r.chance(1,3)){ std::string a=blockName(r)+"alias"; if(used.insert(a).second) al.push_back(a); } v.push_back({b,al}); c.adds.push_back("/blocks/docs"+b); for(auto&a:al) c.adds.push_back("/blocks/docs"+a); }
        std::string t=jsonDesc(v,c.mark); if(r.chance(1,8)){ t.resize(t.size()/2); c.good=false; } else if(r.chance(1,8)){ t.insert(t.size()-1,",{\"name\":\"no path\"}"); c.good=false; } if(r.chance(1,12)) c.good=false; else write("/simfs/conf/d"+n+".json",t); }
    else if(c.kind==1){ set("loader","json_topology"); set("json",r.chance(1,2)?"t"+n+".json":"/simfs/conf/t"+n+".json"); std::string b=blockName(r)+"t"; set("path",b); c.adds.push_back("/blocks"+b); write("/simfs/conf/t"+n+".json","{\"blocks\":[]}"); if(r.chance(1,8)){ c.map.erase("path"); c.good=false; } }
    else if(c.kind==2){ set("loader","jit_compiler"); T.emplace_back(); Target&t=T.back(); t.name="c"+n; if(r.chance(1,3)){ t.name="tgt"+std::to_string(r.below(3)); set("target",t.name); } c.adds.push_back("/framework/conf_loader/jit_compiler/handles/"+t.name); std::string f; std::set<std::string> used; const int k=1+(int)r.below(3); for(int j=0;j<k;j++){ std::string b=blockName(r)+"j"; if(!used.insert(b).second) continue; f+=(f.empty()?"":" ")+b; c.adds.push_back("/blocks"+b); } set("factories",f); set("doc_sources",""); set("sources","s"+n+".cpp"); if(r.chance(1,3)){ std::string b=blockName(r)+"d"; set("doc_sources","s"+n+".cpp"); write("/simfs/conf/s"+n+".cpp","/***********************************************************************\n * |PothosDoc Block "+n+"\n *\n * |category /Sim\n *\n * |factory "+b+"()\n **********************************************************************/\n"); c.adds.push_back("/blocks/docs"+b); c.adds.push_back("/blocks"+b); } t.out=""; }
    else { set("loader","simtest"); set("key"+n,"a value "+n); const int k=(int)r.below(3); std::set<std::string> used; for(int j=0;j<k;j++){ std::string b="/simtest"+blockName(r); if(used.insert(b).second) c.adds.push_back(b); } if(r.chance(1,6)){ set("throw",r.chance(1,2)?"std":"pothos"); c.good=false; } }
    const int brk=(int)r.below(24); if(brk==0){ c.map.erase("loader"); c.good=false; } else if(brk==1){ c.map["loader"]="nosuch"; c.good=false; } std::string extra; if(brk==2){ extra="loop = ${loop}\n"; c.good=false; }
    for(auto&kv:c.map) c.text+=kv.first+" = "+kv.second+"\n"; c.text+=extra; if(r.chance(1,8)) c.text+="confFilePath = /simfs/other/c.conf\n"; sim::kern::make_file(c.path.c_str(),c.text.data(),c.text.size(),r.chance(1,3)?0444:0644);
}
std::string valueOf(const std::string&path){ try { const Object o=PluginRegistry::get(path).getObject(); if(o.type()==typeid(std::string)) return o.extract<std::string>(); return "?"; } catch(const Pothos::PluginRegistryError&){ return ""; } }
// how much of a configuration is registered: 0 nothing, 1 some, 2 all
int stateOf(const Conf&c)
{
    size_t n=0; for(auto&p:c.adds){ const std::string v=valueOf(p); if(v.empty()) continue; if((c.kind==0||c.kind>=3)&&v.find(c.mark)==std::string::npos) continue; n++; } return n==0?(c.adds.empty()?2:0):n==c.adds.size()?2:1;
}
void checkLoaded(const char*when)
{
    std::vector<int> st; for(auto&c:C) st.push_back(stateOf(c));
    for(size_t i=0;i<C.size();i++){ const Conf&c=C[i];
        if(!c.good){ if(!c.clash) SIM_CHECK(st[i]==0||c.adds.empty(),P,"left by a failed configuration","%s: %s is invalid, yet some of its plugins are registered",when,c.path.c_str()); continue; }
        if(!c.clash){ SIM_CHECK(st[i]!=1,P,"partly loaded","%s: only some plugins of %s are registered",when,c.path.c_str()); if(!faulty) SIM_CHECK(st[i]==2,P,"configuration not loaded","%s: the plugins of %s are not registered",when,c.path.c_str()); }
        else if(c.kind==0||c.kind>=3) SIM_CHECK(st[i]!=1,P,"partly loaded","%s: only some plugins of %s are registered",when,c.path.c_str()); }
    // of two that want the same path, at least one must not be half there: every registered path belongs to a configuration that is completely registered
    std::set<std::string> all; for(auto&c:C) for(auto&p:c.adds) all.insert(p);
    for(auto&p:all) if(PluginRegistry::empty(p)==false){ bool owned=false; for(size_t i=0;i<C.size();i++) if(C[i].good&&st[i]==2&&std::count(C[i].adds.begin(),C[i].adds.end(),p)) owned=true; SIM_CHECK(owned,P,"partly loaded","%s: %s is registered, but no configuration that wants it is completely registered",when,p.c_str()); SIM_CHECK(!PluginRegistry::get(p).getModule(),P,"wrong attribution","%s: %s is attributed to a module",when,p.c_str()); }
    for(auto&m:M){ if(m.bad){ SIM_CHECK(!m.loaded,P,"bad module loaded","%s",m.path.c_str()); continue; } if(faulty&&!m.loaded) continue; SIM_CHECK(m.loaded==1,P,"module not loaded","%s: %s is loaded %d times",when,m.path.c_str(),m.loaded); for(auto&p:m.plugs) SIM_CHECK(PluginRegistry::exists(p),P,"plugin missing","%s: plugin %s of %s is not registered",when,p.c_str(),m.path.c_str()); }
}
void checkGone(const char*when)
{
    std::set<std::string> all; for(auto&c:C) for(auto&p:c.adds) all.insert(p);
    for(auto&p:all) SIM_CHECK(PluginRegistry::empty(p),P,"left after deinit","%s: %s is still registered",when,p.c_str());
    for(auto&m:M){ SIM_CHECK(m.loaded==0,P,"module never unloaded","%s: %s",when,m.path.c_str()); for(auto&p:m.plugs) SIM_CHECK(PluginRegistry::empty(p),P,"left after deinit","%s: %s is still registered",when,p.c_str()); }
    for(auto&t:T) SIM_CHECK(t.loaded==0,P,"module never unloaded","%s: %s",when,t.name.c_str());
    SIM_CHECK(sim::proc::unreaped()==0&&sim::proc::open_pipes()==0,P,"child processes left","%s",when); SIM_CHECK(sim::kern::open_fds()<=1,P,"descriptors leaked","%s: %zu files are open",when,sim::kern::open_fds()); // one: the lock of the safe-load cache stays open
}
Plugin gccClang;
void begin(void)
{
    install(); sim::proc::Hooks h{&hookLaunch,&hookWait,nullptr,&hookLoad,&hookUnload}; sim::kern::enable(true); sim::proc::enable(h);
    PluginRegistry::addCall("/framework/conf_loader/simtest",&testLoader); if(!realCc){ gccClang=PluginRegistry::remove("/util/compiler/gcc_clang"); PluginRegistry::addCall("/util/compiler/sim",&makeCompiler); }
}
void finish(void){ PluginRegistry::remove("/framework/conf_loader/simtest"); if(!realCc){ PluginRegistry::remove("/util/compiler/sim"); PluginRegistry::add(gccClang); gccClang=Plugin(); } sim::proc::disable(); sim::kern::enable(false); C.clear(); T.clear(); M.clear(); S.clear(); }
void initWorld()
{
    P="C33"; realCc=false; LRng g(sim::rnd()); const int nc=(int)sim::param("confs",0,6), nm=(int)sim::param("modules",0,3), nt=(int)sim::param("threads",1,3), rounds=(int)sim::param("rounds",1,3); faulty=sim::param("faults",0,2)==1; const int twice=(int)sim::param("paths",0,4);
    begin();
    for(int i=0;i<nm;i++){ M.emplace_back(); Mod&m=M.back(); m.path="/simfs/mods/m"+std::to_string(i)+".so"; m.id=i; m.bad=g.chance(1,6); for(int k=(int)g.below(3);k>=0;k--) m.plugs.push_back("/simmod/m"+std::to_string(i)+"/p"+std::to_string(k)); sim::kern::make_file(m.path.c_str(),"x",1,0755); }
    for(int i=0;i<nc;i++) makeConf(g,i);
    if(twice==1) setenv("POTHOS_CONF_PATH","/simfs/conf:/simfs/conf",1); if(twice==2) setenv("POTHOS_PLUGIN_PATH","/simfs/mods:/simfs/mods/",1); if(twice==3) setenv("POTHOS_PLUGIN_PATH","/simfs/nosuch::/simfs/mods:/simfs/root/bin/PothosUtil",1);
    for(auto&a:C) for(auto&b:C) if(&a!=&b) for(auto&p:a.adds) if(std::count(b.adds.begin(),b.adds.end(),p)) a.clash=true;
    if(twice==1) for(auto&c:C) c.clash=true;
    if(faulty) for(int k:{sim::F_OPEN_FAIL,sim::F_STAT_FAIL,sim::F_DLOPEN_FAIL,sim::F_LAUNCH_FAIL,sim::F_CHILD_CRASH,sim::F_LOCK_FAIL,sim::F_WRITE_FAIL,sim::F_CLOSE_FAIL,sim::F_EINTR}) sim::enable_fault((sim::FaultKind)k);
    for(int round=0;round<rounds;round++){
        std::vector<uint64_t> seeds; for(int t=0;t<nt;t++) seeds.push_back(g.next()); std::atomic<int> phase(0); std::vector<std::thread> th; std::atomic<int> inited(0), failed(0); std::atomic<bool> ok1(false);
        for(int t=0;t<nt;t++) th.emplace_back([&,t]{ LRng r(seeds[t]); bool ok=true; for(int k=r.chance(1,3)?2:1;k>0;k--){ try { Pothos::init(); ok1=true; } catch(const std::exception&e){ SIM_CHECK(faulty,P,"init failed","Pothos::init() failed although nothing is wrong with the installation: %s",e.what()); ok=false; failed++; sim::count("init failed"); } }
            if(ok&&!failed.load()) checkLoaded("after init"); 
            inited++; });
        for(auto&t:th) t.join(); th.clear(); if(!faulty) checkLoaded("all threads initialised"); sim::count("initialisations");
        std::string removed; if(!faulty&&g.chance(1,4)){ std::vector<std::string> v; for(auto&c:C) if((c.kind<2||c.kind>=3)&&stateOf(c)==2) for(auto&p:c.adds) v.push_back(p); if(!v.empty()){ removed=v[g.below(v.size())]; PluginRegistry::remove(removed); sim::count("plugins removed by hand"); } }
        const int nd=g.chance(1,2)?1:nt; const bool scoped=g.chance(1,4)&&nd==1;
        for(int t=0;t<nd;t++) th.emplace_back([&]{ try { if(scoped&&!faulty) Pothos::ScopedInit s; if(ok1.load()||!failed.load()) Pothos::deinit(); } catch(const std::exception&e){ sim::violate(P,"deinit failed","Pothos::deinit() failed: %s",e.what()); } });
        for(auto&t:th) t.join(); th.clear(); checkGone("after deinit");
    }
    sim::faults_off(); faulty=false; try { Pothos::init(); } catch(const std::exception&e){ sim::violate(P,"init failed","Pothos::init() failed although nothing is wrong any more: %s",e.what()); } checkLoaded("after the faults"); Pothos::deinit(); checkGone("at the end");
    finish();
}
//---------------------------------------------------------------- C34
struct Use { std::shared_ptr<Pothos::Block> b; Made*m; };
bool useBlock(Target&t,const std::string&f,int arg,std::vector<Use>*keep,const char*must=nullptr)
{
    std::vector<int> before; bool known; { sim::NoSched n; known=t.loaded!=0; if(!t.flying++){ t.since.clear(); for(auto&p:t.sources) t.since.push_back(srcAt(p)->version); } before=t.since; } struct U{ Target&t; ~U(){ sim::NoSched n; t.flying--; } } u{t};
    Pothos::Proxy px; try { px=Pothos::BlockRegistry::make(f,arg); } catch(const Pothos::Exception&e){ sim::count("blocks refused"); sim::note("make(%s): %s",f.c_str(),e.displayText().c_str()); if(must) sim::violate(P,"block not made","%s: making %s failed: %s",must,f.c_str(),e.displayText().c_str()); std::string tx=e.displayText(); bool cerr; { sim::NoSched n; cerr=!faulty&&t.cached&&!t.loaded; } if(cerr) SIM_CHECK(tx.find("compile error in "+t.name)!=std::string::npos,P,"compiler output lost","compiling %s failed, the error only says: %s",t.name.c_str(),tx.c_str()); if(!t.missing) SIM_CHECK(tx.find("plugin path not found")==std::string::npos,P,"block disappeared","%s of %s was not found in the registry: %s",f.c_str(),t.name.c_str(),tx.c_str()); return false; }
    std::shared_ptr<Pothos::Block> b; try { b=px.convert<std::shared_ptr<Pothos::Block>>(); } catch(const Pothos::Exception&e){ sim::violate(P,"not a block","making %s returned something else than a block that its holders share: %s",f.c_str(),e.displayText().c_str()); }
    Made*m=dynamic_cast<Made*>(b.get()); SIM_CHECK(m,P,"wrong block","%s",f.c_str()); SIM_CHECK(m->t==&t&&m->factory==f&&m->arg==arg,P,"wrong block","making %s with argument %d returned a block of %s with argument %d",f.c_str(),arg,m->factory.c_str(),m->arg);
    SIM_CHECK(m->getName()==f,P,"wrong name","the block of %s is called '%s'",f.c_str(),m->getName().c_str());
    { sim::NoSched n; if(!known){ for(size_t i=0;i<before.size();i++) SIM_CHECK(m->vs[i]>=before[i],P,"outdated module used","%s is at version %d, but a block made afterwards comes from a module compiled from version %d",t.sources[i].c_str(),before[i],m->vs[i]); } sim::count("blocks made"); }
    if(keep) keep->push_back({b,m}); return true;
}
void jitWorld()
{
    P="C34"; LRng g(sim::rnd()); const int ntg=(int)sim::param("targets",1,2), nt=(int)sim::param("threads",1,3), nops=(int)sim::param("ops",1,5), sessions=(int)sim::param("sessions",1,3), edits=(int)sim::param("edits",0,3); faulty=sim::param("faults",0,2)==1; const bool other=sim::param("others",0,2)==0; realCc=sim::param("compiler",0,1)==1;
    begin(); tick=0;
    for(int i=0;i<ntg;i++){ T.emplace_back(); Target&t=T.back(); const std::string n=std::to_string(i); t.name="tg"+n; t.out="/simfs/data/Pothos/modules/"+t.name+".so"; const int ns=1+(int)g.below(2), nf=1+(int)g.below(3); std::string ss,fs;
        for(int k=0;k<ns;k++){ S.emplace_back(); Source&s=S.back(); s.path="/simfs/src/"+t.name+"_"+std::to_string(k)+".cpp"; s.version=1; s.broken=g.chance(1,12); s.mtime=1600000000; putSource(s); t.sources.push_back(s.path); ss+=(k?" ":"")+(g.chance(1,2)?s.path:"../src/"+t.name+"_"+std::to_string(k)+".cpp"); }
        for(int k=0;k<nf;k++){ t.factories.push_back("/simj/"+t.name+"/f"+std::to_string(k)); fs+=(k?" ":"")+t.factories.back(); }
        t.missing=g.chance(1,10);
        if(g.chance(1,6)){ for(const char*d:{"/simfs/data/Pothos","/simfs/data/Pothos/modules"}) if(!sim::kern::exists(d)) dir(d); sim::kern::make_file(t.out.c_str(),"",0,0644); sim::kern::set_mtime(t.out.c_str(),1900000000); } // empty: a compilation was interrupted
        write("/simfs/conf/"+t.name+".conf","loader = jit_compiler\nfactories = "+fs+"\nsources = "+ss+"\ndoc_sources =\nincludes = inc /simfs/inc2\nflags = -DT="+t.name+" -DA=1 -UA\nlibraries = liba.so ../lib/libb.so\n"); }
    if(faulty) for(int k:{sim::F_OPEN_FAIL,sim::F_STAT_FAIL,sim::F_DLOPEN_FAIL,sim::F_CHILD_CRASH,sim::F_LOCK_FAIL,sim::F_WRITE_FAIL,sim::F_CLOSE_FAIL,sim::F_RENAME_FAIL,sim::F_EINTR}) sim::enable_fault((sim::FaultKind)k);
    const bool faults=faulty;
    for(int ses=0;ses<=sessions;ses++){ const bool last=ses==sessions; if(last){ sim::faults_off(); faulty=false; for(auto&s:S) if(s.broken){ s.broken=false; s.version++; s.mtime=srcClock+=2; putSource(s); } }
        for(auto&t:T){ t.cached=false; t.compiles=0; }
        bool up=false; try { Pothos::init(); up=true; } catch(const std::exception&e){ SIM_CHECK(faulty,P,"init failed","%s",e.what()); } if(!up) continue;
        bool there=true; for(auto&t:T) for(auto&f:t.factories) if(PluginRegistry::empty("/blocks"+f)) there=false; if(!there){ SIM_CHECK(faulty,P,"configuration not loaded","a factory is not registered"); Pothos::deinit(); checkGone("after a partial init"); continue; }
        std::vector<std::vector<Use>> held(nt); std::vector<std::thread> th; std::vector<uint64_t> seeds; for(int t=0;t<nt;t++) seeds.push_back(g.next()); const uint64_t es=g.next(), os=g.next();
        for(int t=0;t<nt;t++) th.emplace_back([&,t]{ LRng r(seeds[t]); for(int k=0;k<nops;k++){ Target&tg=T[r.below(T.size())]; useBlock(tg,tg.factories[r.below(tg.factories.size()-(tg.missing?1:0)+0)%tg.factories.size()],(int)r.below(1000),r.chance(1,2)?&held[t]:nullptr); if(r.chance(1,3)) sim::sleep_ns(r.below(2000000000)); if(!held[t].empty()&&r.chance(1,3)) held[t].pop_back(); } });
        if(edits&&!last) th.emplace_back([&]{ LRng r(es); for(int k=0;k<edits;k++){ sim::sleep_ns(r.below(4000000000ull)); sim::NoSched n; Source&s=S[r.below(S.size())]; s.version++; s.broken=r.chance(1,6); srcClock=std::max<int64_t>(srcClock+2,1600000001+(int64_t)(sim::waited_ns()/1000000000ull)); s.mtime=srcClock; putSource(s); sim::note("%s is now version %d, time %ld",s.path.c_str(),s.version,(long)s.mtime); sim::count("sources edited"); } });
        if(other&&!last) th.emplace_back([&]{ LRng r(os); // another process compiles one of the targets
            for(int k=0;k<3;k++){ Target&t=T[r.below(T.size())]; sim::sleep_ns(r.below(3000000000ull)); sim::NoSched n; if(!sim::kern::exists("/simfs/data/Pothos/modules")) continue; std::string out="SIMSO "+t.name; int64_t newest=0; bool brk=false; for(auto&p:t.sources){ Source*s=srcAt(p); out+=" "+std::to_string(s->version); newest=std::max(newest,s->mtime); brk|=s->broken; } if(brk) continue; out+="\nEND\n"; sim::kern::write_file("/simfs/other.so",out.data(),out.size()); sim::kern::set_mtime("/simfs/other.so",newest); sim::kern::move("/simfs/other.so",t.out.c_str()); sim::count("compiled by another process"); } });
        for(auto&t:th) t.join(); th.clear();
        // in the same session, once nothing fails any more: every block can be made unless its compilation failed
        if(last||!faults) for(auto&t:T){ bool brk; { sim::NoSched n; brk=t.cached; for(auto&p:t.sources) brk|=srcAt(p)->broken&&!t.loaded; } if(!brk) for(size_t i=0;i<t.factories.size()-(t.missing?1:0);i++) useBlock(t,t.factories[i],7,nullptr,"without faults"); }
        if(last) for(auto&t:T) SIM_CHECK(t.compiles<=1,P,"compiled again","%s was compiled %d times in one session although it did not change",t.name.c_str(),t.compiles);
        for(auto&v:held) for(auto&u:v) SIM_CHECK(u.m->t->loaded,P,"module unloaded under a block","%s",u.m->factory.c_str());
        const bool keepSome=g.chance(1,2); if(!keepSome) held.clear();
        try { Pothos::deinit(); } catch(const std::exception&e){ sim::violate(P,"deinit failed","%s",e.what()); }
        for(auto&v:held) for(auto&u:v) SIM_CHECK(u.m->t->loaded,P,"module unloaded under a block","the module of %s is unloaded although a block of it exists",u.m->factory.c_str());
        held.clear(); for(auto&t:T) for(auto&f:t.factories) SIM_CHECK(PluginRegistry::empty("/blocks"+f),P,"left after deinit","/blocks%s is still registered",f.c_str()); checkGone("after deinit"); if(!faults) for(auto&f:temps) SIM_CHECK(!sim::kern::exists(f.c_str()),P,"temporary file left","%s",f.c_str());
    }
    finish();
}
}
SIM_WORLD(conf)
{
    sim::set_caps(900000,8000000); P="C33"; int mode=(int)sim::param("mode",0,1); if(sim::property_is("C33")) mode=0; if(sim::property_is("C34")) mode=1;
    history.clear(); srcClock=1600000000; probes.clear(); testCalls.clear(); temps.clear(); ccs.clear();
    if(mode==1) jitWorld(); else initWorld();
}
