// Simulated kernel: files, mappings, file locks and host identity behind the C library calls the code under test makes.
// Off by default (calls go to the real kernel); a world switches it on.  Paths below /simfs/ live only in the simulation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "simrt_int.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <dirent.h>
#include <dlfcn.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <utime.h>

using namespace sim;
static bool kon=false;
static long sc(long r){ if(r<0&&r>-4096){ errno=(int)-r; return -1; } return r; }
static inline bool on(){ return kon&&sim_in(); }

struct KFile { char path[128]; int memfd; int lockOwner; bool exists; mode_t mode; int64_t mtime; };          // lockOwner: fd slot+1
struct KFd { bool used; int file; int thread; uint64_t off; int fl; };
enum { NF=2048, NFD=256, NMAP=128, FDBASE=100000 };
static KFile files[NF]; static int nfiles=0; static KFd fds[NFD];
struct KMap { uintptr_t a; size_t n; int owner; bool live; };
static KMap maps[NMAP]; static int nmaps=0;
static const uintptr_t MAP_LO=0x310000000000ull;

void kern::enable(bool b){ kon=b; }
size_t kern::locks_held(void){ size_t n=0; for(int i=0;i<nfiles;i++) n+=files[i].lockOwner!=0; return n; }
size_t kern::open_fds(void){ size_t n=0; for(auto&f:fds) n+=f.used; return n; }
size_t kern::open_maps(void){ size_t n=0; for(int i=0;i<nmaps;i++) n+=maps[i].live; return n; }
static int ffind(const char*p){ for(int i=0;i<nfiles;i++) if(files[i].exists&&!strcmp(files[i].path,p)) return i; return -1; }
static int fmake(const char*p,mode_t m){ if(nfiles==NF) return -1; KFile&f=files[nfiles]; snprintf(f.path,sizeof f.path,"%s",p); f.exists=true; f.mode=m; f.lockOwner=0; f.mtime=1600000000; f.memfd=(int)sim_raw_syscall(SYS_memfd_create,(long)"sim",0); return nfiles++; }
int kern::make_file(const char*p,const void*data,size_t n,unsigned mode){ int i=fmake(p,S_IFREG|mode); if(i<0) return -1; if(n){ sim_raw_syscall(SYS_write,files[i].memfd,(long)data,(long)n); } return 0; }
int kern::make_dir(const char*p){ return fmake(p,S_IFDIR|0755)<0?-1:0; }
bool kern::exists(const char*p){ return ffind(p)>=0; }
void kern::set_mtime(const char*p,int64_t sec){ int i=ffind(p); if(i>=0) files[i].mtime=sec; }
void kern::write_file(const char*p,const void*data,size_t n){ int i=ffind(p); if(i<0) i=fmake(p,S_IFREG|0644); if(i<0) return; sim_raw_syscall(SYS_ftruncate,files[i].memfd,0); if(n) sim_raw_syscall(SYS_pwrite64,files[i].memfd,(long)data,(long)n,0); files[i].mtime=1600000000+(int64_t)(sim_vtime()/1000000000ull); }
size_t kern::file_size(const char*p){ int i=ffind(p); if(i<0) return 0; struct stat st; if(sim_raw_syscall(SYS_fstat,files[i].memfd,(long)&st)<0) return 0; return (size_t)st.st_size; }
size_t kern::read_file(const char*p,void*out,size_t n){ int i=ffind(p); if(i<0) return 0; long r=sim_raw_syscall(SYS_pread64,files[i].memfd,(long)out,(long)n,0); return r<0?0:(size_t)r; }
void kern::exit_process(int thread){ for(int i=0;i<NFD;i++) if(fds[i].used&&fds[i].thread==thread){ if(files[fds[i].file].lockOwner==i+1){ sim_release(&files[fds[i].file]); files[fds[i].file].lockOwner=0; sim_wake_io(&files[fds[i].file]); } fds[i].used=false; } }
bool kern::owns(uintptr_t a,size_t n){ for(int i=0;i<nmaps;i++) if(maps[i].live&&a>=maps[i].a&&a+n<=maps[i].a+maps[i].n) return true; return false; }

void kern::move(const char*a,const char*b){ int f=ffind(a); if(f<0) return; int t=ffind(b); if(t>=0&&t!=f) files[t].exists=false; snprintf(files[f].path,sizeof files[f].path,"%s",b); }
size_t kern::files_under(const char*pre){ size_t n=0; for(int i=0;i<nfiles;i++) n+=files[i].exists&&!strncmp(files[i].path,pre,strlen(pre)); return n; }
static bool overlaps(uintptr_t a,size_t n){ for(int i=0;i<nmaps;i++) if(maps[i].live&&a<maps[i].a+maps[i].n&&maps[i].a<a+n) return true; return false; }
static uintptr_t place(size_t n){ uintptr_t a=MAP_LO; for(;;){ bool hit=false; for(int i=0;i<nmaps;i++) if(maps[i].live&&a<maps[i].a+maps[i].n&&maps[i].a<a+n){ a=maps[i].a+maps[i].n; hit=true; } if(!hit) return a; } }
static void addmap(uintptr_t a,size_t n){ for(int i=0;i<nmaps;i++) if(!maps[i].live){ maps[i]={a,n,sim::self(),true}; return; } if(nmaps<NMAP) maps[nmaps++]={a,n,sim::self(),true}; }
static bool delrange(uintptr_t a,size_t n) // true when the whole range was mapped
{
    size_t got=0; for(int i=0;i<nmaps;i++) if(maps[i].live){ KMap&m=maps[i]; uintptr_t lo=m.a>a?m.a:a, hi=m.a+m.n<a+n?m.a+m.n:a+n; if(lo>=hi) continue; got+=hi-lo; uintptr_t ma=m.a; size_t mn=m.n; m.live=false; if(ma<lo) addmap(ma,lo-ma); if(hi<ma+mn) addmap(hi,ma+mn-hi); }
    return got==n;
}
static bool is_sim(const char*p){ return !strncmp(p,"/simfs/",7)||!strncmp(p,"/tmp/",5)||ffind(p)>=0; }
static int k_open(const char*path,int flags,mode_t mode)
{
    sim_point(20,nullptr);
    if(sim::fault(F_OPEN_FAIL,1,12)){ static const int e[]={EMFILE,EACCES,EINTR,ENOSPC}; errno=e[sim::fault_value(F_OPEN_FAIL,4)]; return -1; }
    int f=ffind(path);
    if(f>=0&&(flags&O_CREAT)&&(flags&O_EXCL)){ errno=EEXIST; return -1; }
    if(f<0){ if(!(flags&O_CREAT)){ errno=ENOENT; return -1; } f=fmake(path,S_IFREG|mode); if(f<0){ errno=ENOSPC; return -1; } }
    if(S_ISDIR(files[f].mode)&&(flags&O_ACCMODE)!=O_RDONLY){ errno=EISDIR; return -1; }
    if(flags&O_TRUNC) sim_raw_syscall(SYS_ftruncate,files[f].memfd,0);
    for(int i=0;i<NFD;i++) if(!fds[i].used){ fds[i]={true,f,sim::self(),0,flags}; return FDBASE+i; }
    errno=EMFILE; return -1;
}
static int real_fd(int fd){ if(fd>=FDBASE&&fd<FDBASE+NFD&&fds[fd-FDBASE].used) return files[fds[fd-FDBASE].file].memfd; return fd; }
void *kern::map(size_t n){ uintptr_t a=place((n+4095)&~4095ull); void*p=(void*)sim_raw_syscall(SYS_mmap,a,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0); addmap(a,(n+4095)&~4095ull); return p; }
void kern::unmap(void*p,size_t n){ n=(n+4095)&~4095ull; delrange((uintptr_t)p,n); sim_raw_syscall(SYS_munmap,(long)p,n); }

int sim_net_close(int fd) __attribute__((weak)); // net.cpp, where a world uses it
int sim_proc_close(int fd) __attribute__((weak)); long sim_proc_read(int fd,void*b,size_t n) __attribute__((weak)); long sim_proc_write(int fd,const void*b,size_t n) __attribute__((weak)); // proc.cpp
static KFd*FD(int fd){ return fd>=FDBASE&&fd<FDBASE+NFD&&fds[fd-FDBASE].used?&fds[fd-FDBASE]:nullptr; }
struct SimDir { uint64_t magic; int at; char prefix[128]; struct dirent64 de; SimDir*next; };
static int node(){ int p=sim_in()?sim::process():0; return p<32?kern::node_of[p]:0; }
static int mac_file(){ char b[32]; int n=snprintf(b,sizeof b,"02:00:00:00:00:%02x\n",node()); int fd=(int)sim_raw_syscall(SYS_memfd_create,(long)"mac",0); sim_raw_syscall(SYS_write,fd,(long)b,n); sim_raw_syscall(SYS_lseek,fd,0,0); return fd; }
extern "C" {
int open(const char*path,int flags,...){ va_list ap; va_start(ap,flags); mode_t m=(flags&(O_CREAT|O_TMPFILE))?va_arg(ap,int):0; va_end(ap); if(on()) return k_open(path,flags,m); return (int)sc(sim_raw_syscall(SYS_openat,AT_FDCWD,(long)path,flags,m)); }
int open64(const char*path,int flags,...){ va_list ap; va_start(ap,flags); mode_t m=(flags&(O_CREAT|O_TMPFILE))?va_arg(ap,int):0; va_end(ap); if(sim_in()&&!strncmp(path,"/sys/class/net/",15)) return mac_file();/* whether this machine has such a device does not matter */ if(on()&&is_sim(path)) return k_open(path,flags,m); return (int)sc(sim_raw_syscall(SYS_openat,AT_FDCWD,(long)path,flags|O_LARGEFILE,m)); }
int __open_2(const char*path,int flags){ return open(path,flags); }
int __open64_2(const char*path,int flags){ return open64(path,flags); }
int shm_open(const char*name,int flags,mode_t m){ if(on()) return k_open(name,flags,m); errno=ENOSYS; return -1; }
int shm_unlink(const char*name){ if(on()){ int f=ffind(name); if(f<0){ errno=ENOENT; return -1; } files[f].exists=false; return 0; } errno=ENOSYS; return -1; }
int memfd_create(const char*name,unsigned fl) noexcept { if(on()){ static int n=0; char b[64]; snprintf(b,sizeof b,"memfd:%d",n++); int fd=k_open(b,O_CREAT|O_RDWR,0600); if(fd>=0) files[fds[fd-FDBASE].file].exists=false; return fd; } return (int)sc(sim_raw_syscall(SYS_memfd_create,(long)name,fl)); }
int close(int fd)
{
    if(fd>=FDBASE&&fd<FDBASE+NFD){
        KFd&k=fds[fd-FDBASE]; if(!k.used){ if(on()) sim::violate("C23 C26","double close","descriptor %d closed while not open",fd); errno=EBADF; return -1; }
        sim_point(21,nullptr); KFile&f=files[k.file]; if(f.lockOwner==fd-FDBASE+1){ sim_release(&f); f.lockOwner=0; sim_wake_io(&f); } k.used=false;
        if(sim::fault(F_CLOSE_FAIL,1,16)){ errno=EIO; return -1; } // the descriptor is gone all the same
        return 0; }
    if(fd>=300000&&sim_proc_close){ int r=sim_proc_close(fd); if(r!=-2) return r; }
    if(fd>=200000&&sim_net_close){ int r=sim_net_close(fd); if(r!=-2) return r; }
    return (int)sc(sim_raw_syscall(SYS_close,fd));
}
ssize_t read(int fd,void*b,size_t n)
{
    if(fd>=300000&&sim_proc_read){ long r=sim_proc_read(fd,b,n); if(r!=-2) return r; }
    KFd*k=FD(fd); if(!k) return sc(sim_raw_syscall(SYS_read,fd,(long)b,(long)n));
    sim_point(25,nullptr); if(sim::fault(F_READ_FAIL,1,12)){ errno=EIO; return -1; }
    long r=sim_raw_syscall(SYS_pread64,files[k->file].memfd,(long)b,(long)n,(long)k->off); if(r>0) k->off+=(uint64_t)r; return sc(r);
}
ssize_t write(int fd,const void*b,size_t n)
{
    if(fd>=300000&&sim_proc_write){ long r=sim_proc_write(fd,b,n); if(r!=-2) return r; }
    KFd*k=FD(fd); if(!k) return sc(sim_raw_syscall(SYS_write,fd,(long)b,(long)n));
    sim_point(26,nullptr); KFile&f=files[k->file]; size_t m=n; bool bad=sim::fault(F_WRITE_FAIL,1,10); if(bad) m=n?sim::fault_value(F_WRITE_FAIL,n):0;
    if(k->fl&O_APPEND){ struct stat st; sim_raw_syscall(SYS_fstat,f.memfd,(long)&st); k->off=(uint64_t)st.st_size; }
    long r=m?sim_raw_syscall(SYS_pwrite64,f.memfd,(long)b,(long)m,(long)k->off):0; if(r>0) k->off+=(uint64_t)r; f.mtime=1600000000+(int64_t)(sim_vtime()/1000000000ull);
    if(bad&&r<=0){ errno=ENOSPC; return -1; } return sc(r);
}
off64_t lseek64(int fd,off64_t o,int w) noexcept
{
    KFd*k=FD(fd); if(!k) return sc(sim_raw_syscall(SYS_lseek,fd,o,w));
    if(w==SEEK_CUR) o+=(off64_t)k->off; else if(w==SEEK_END){ struct stat st; sim_raw_syscall(SYS_fstat,files[k->file].memfd,(long)&st); o+=st.st_size; }
    if(o<0){ errno=EINVAL; return -1; } k->off=(uint64_t)o; return o;
}
off_t lseek(int fd,off_t o,int w) noexcept { return lseek64(fd,o,w); }
typedef DIR*(*Fopendir)(const char*); typedef struct dirent64*(*Freaddir)(DIR*); typedef int(*Fclosedir)(DIR*);
static SimDir*dirs=nullptr; static bool sim_dir(DIR*d){ for(SimDir*x=dirs;x;x=x->next) if((DIR*)x==d) return true; return false; }
DIR*opendir(const char*p){ if(on()&&is_sim(p)){ sim_point(20,nullptr); int f=ffind(p); if(f<0){ errno=ENOENT; return nullptr; } if(!S_ISDIR(files[f].mode)){ errno=ENOTDIR; return nullptr; } if(sim::fault(F_OPEN_FAIL,1,12)){ errno=EMFILE; return nullptr; } SimDir*d=(SimDir*)calloc(1,sizeof(SimDir)); d->at=0; snprintf(d->prefix,sizeof d->prefix,"%s/",p); d->next=dirs; dirs=d; return (DIR*)d; } static Fopendir f=(Fopendir)dlsym(RTLD_NEXT,"opendir"); return f(p); }
struct dirent64*readdir64(DIR*dd){ if(sim_dir(dd)){ SimDir*d=(SimDir*)dd; size_t n=strlen(d->prefix); for(;d->at<nfiles;d->at++){ KFile&f=files[d->at]; if(f.exists&&!strncmp(f.path,d->prefix,n)&&f.path[n]&&!strchr(f.path+n,'/')){ snprintf(d->de.d_name,sizeof d->de.d_name,"%s",f.path+n); d->at++; return &d->de; } } return nullptr; } static Freaddir f=(Freaddir)dlsym(RTLD_NEXT,"readdir64"); return f(dd); }
int closedir(DIR*dd){ if(sim_dir(dd)){ SimDir**q=&dirs; while(*q!=(SimDir*)dd) q=&(*q)->next; *q=(*q)->next; free(dd); return 0; } static Fclosedir f=(Fclosedir)dlsym(RTLD_NEXT,"closedir"); return f(dd); }
int ftruncate(int fd,off_t n) noexcept { if(on()&&sim::fault(F_FTRUNCATE_FAIL,1,12)){ errno=ENOSPC; return -1; } return (int)sc(sim_raw_syscall(SYS_ftruncate,real_fd(fd),n)); }
int ftruncate64(int fd,off64_t n) noexcept { return ftruncate(fd,n); }
int flock(int fd,int op) noexcept
{
    if(!on()||fd<FDBASE||fd>=FDBASE+NFD) return (int)sc(sim_raw_syscall(SYS_flock,fd,op));
    sim_point(22,nullptr); KFd&k=fds[fd-FDBASE]; if(!k.used){ errno=EBADF; return -1; } KFile&f=files[k.file]; int me=fd-FDBASE+1;
    if((op&~LOCK_NB)==LOCK_UN){ if(f.lockOwner==me){ sim_release(&f); f.lockOwner=0; sim_wake_io(&f); } return 0; }
    if(sim::fault(F_LOCK_FAIL,1,10)){ errno=ENOLCK; return -1; }
    while(f.lockOwner&&f.lockOwner!=me){
        if(op&LOCK_NB){ errno=EWOULDBLOCK; return -1; }
        uint64_t dl=~0ull; bool intr=sim::fault(F_EINTR,1,6); if(intr) dl=sim_vtime()+1+sim::fault_value(F_EINTR,2000000);
        if(sim_block_io(&f,dl)==1&&intr){ errno=EINTR; return -1; }
    }
    f.lockOwner=me; sim_acquire(&f); return 0;
}
static int k_stat(const char*p,struct stat*st){ if(!strncmp(p,"/simfs/",7)&&sim::fault(F_STAT_FAIL,1,14)){ errno=EIO; return -1; } int f=ffind(p); if(f<0){ errno=ENOENT; return -1; } if(sim_raw_syscall(SYS_fstat,files[f].memfd,(long)st)<0) return -1; st->st_mode=files[f].mode; st->st_mtim.tv_sec=files[f].mtime; st->st_mtim.tv_nsec=0; st->st_uid=geteuid(); st->st_gid=getegid(); return 0; }
int stat(const char*p,struct stat*st) noexcept { if(on()&&is_sim(p)) return k_stat(p,st); return (int)sc(sim_raw_syscall(SYS_stat,(long)p,(long)st)); }
int stat64(const char*p,struct stat64*st) noexcept { if(on()&&is_sim(p)) return k_stat(p,(struct stat*)st); return (int)sc(sim_raw_syscall(SYS_stat,(long)p,(long)st)); }
int lstat64(const char*p,struct stat64*st) noexcept { if(on()&&is_sim(p)) return k_stat(p,(struct stat*)st); return (int)sc(sim_raw_syscall(SYS_lstat,(long)p,(long)st)); }
int fstat(int fd,struct stat*st) noexcept { return (int)sc(sim_raw_syscall(SYS_fstat,real_fd(fd),(long)st)); }
int fstat64(int fd,struct stat64*st) noexcept { return (int)sc(sim_raw_syscall(SYS_fstat,real_fd(fd),(long)st)); }
int rename(const char*a,const char*b) noexcept
{
    if(!on()||!is_sim(a)) return (int)sc(sim_raw_syscall(SYS_rename,(long)a,(long)b)); sim_point(27,nullptr);
    int f=ffind(a); if(f<0){ errno=ENOENT; return -1; } if(sim::fault(F_RENAME_FAIL,1,12)){ errno=EIO; return -1; } kern::move(a,b); return 0; // a replaced file stays with those who have it open
}
int mkdir(const char*p,mode_t m) noexcept { if(!on()||(strncmp(p,"/simfs/",7)&&!is_sim(p))) return (int)sc(sim_raw_syscall(SYS_mkdir,(long)p,m)); sim_point(27,nullptr); if(ffind(p)>=0){ errno=EEXIST; return -1; } if(fmake(p,S_IFDIR|0755)<0){ errno=ENOSPC; return -1; } return 0; }
int rmdir(const char*p) noexcept { if(on()&&ffind(p)>=0){ files[ffind(p)].exists=false; return 0; } return (int)sc(sim_raw_syscall(SYS_rmdir,(long)p)); }
int fsync(int fd){ if(FD(fd)){ sim_point(27,nullptr); return 0; } return (int)sc(sim_raw_syscall(SYS_fsync,fd)); }
int utime(const char*p,const struct utimbuf*t) noexcept { if(on()&&is_sim(p)){ sim_point(27,nullptr); int f=ffind(p); if(f<0){ errno=ENOENT; return -1; } files[f].mtime=t?t->modtime:1600000000+(int64_t)(sim_vtime()/1000000000ull); return 0; } return (int)sc(sim_raw_syscall(SYS_utime,(long)p,(long)t)); }
char *realpath(const char*p,char*out) noexcept { if(on()&&is_sim(p)){ if(ffind(p)<0){ errno=ENOENT; return nullptr; } if(!out) out=(char*)malloc(strlen(p)+1); strcpy(out,p); return out; } typedef char*(*F)(const char*,char*); static F f=(F)dlsym(RTLD_NEXT,"realpath"); return f(p,out); }
FILE *fopen64(const char*p,const char*mode) // a snapshot of the file: only for reading
{
    typedef FILE*(*F)(const char*,const char*); static F f=(F)dlsym(RTLD_NEXT,"fopen64"); if(!on()||!is_sim(p)||mode[0]!='r'||strchr(mode,'+')) return f(p,mode);
    sim_point(20,nullptr); int i=ffind(p); if(i<0){ errno=ENOENT; return nullptr; } if(sim::fault(F_OPEN_FAIL,1,12)){ errno=EMFILE; return nullptr; }
    int fd=(int)sim_raw_syscall(SYS_memfd_create,(long)"snap",0); static char b[65536]; long n=sim_raw_syscall(SYS_pread64,files[i].memfd,(long)b,sizeof b,0); if(n>0) sim_raw_syscall(SYS_write,fd,(long)b,n); sim_raw_syscall(SYS_lseek,fd,0,0); return fdopen(fd,"r");
}
FILE *fopen(const char*p,const char*mode){ return fopen64(p,mode); }
int unlink(const char*p) noexcept { if(on()){ int f=ffind(p); if(f>=0){ files[f].exists=false; return 0; } } return (int)sc(sim_raw_syscall(SYS_unlink,(long)p)); }
void *mmap(void*addr,size_t n,int prot,int flags,int fd,off_t off) noexcept
{
    if(!on()) return (void*)sc(sim_raw_syscall(SYS_mmap,(long)addr,n,prot,flags,fd,off));
    sim_point(23,addr); size_t len=(n+4095)&~4095ull;
    if(n==0){ errno=EINVAL; return MAP_FAILED; }
    if(sim::fault(F_MMAP_FAIL,1,14)){ errno=ENOMEM; return MAP_FAILED; }
    uintptr_t a=(uintptr_t)addr;
    if(flags&MAP_FIXED&&!(flags&MAP_FIXED_NOREPLACE)){
        if(!kern::owns(a,len)&&overlaps(a,len)) sim::violate("C23","foreign mapping replaced","mmap(MAP_FIXED) at %p replaces memory that is not its own",addr);
        for(int i=0;i<nmaps;i++) if(maps[i].live&&a<maps[i].a+maps[i].n&&maps[i].a<a+len&&maps[i].owner!=sim::self()) sim::violate("C23","foreign mapping replaced","mmap(MAP_FIXED) at %p replaces a mapping made by thread %d",addr,maps[i].owner);
        delrange(a,len); }
    else { bool moved=a&&sim::fault(F_MMAP_MOVED,1,8); if(!a||overlaps(a,len)||moved||a<MAP_LO){ if((flags&MAP_FIXED_NOREPLACE)&&(moved||overlaps(a,len))){ errno=EEXIST; return MAP_FAILED; } if(a&&a>=MAP_LO&&!moved) sim::count("mapping hint already taken"); uintptr_t b=place(len); if(moved) while(b==a||overlaps(b,len)) b+=len+65536; a=b; } }
    long r=sim_raw_syscall(SYS_mmap,(long)a,n,prot,(flags&~MAP_FIXED_NOREPLACE)|MAP_FIXED,fd<0?fd:real_fd(fd),off);
    if(r<0&&r>-4096){ errno=(int)-r; return MAP_FAILED; }
    addmap(a,len); return (void*)r;
}
void *mmap64(void*addr,size_t n,int prot,int flags,int fd,off64_t off) noexcept { return mmap(addr,n,prot,flags,fd,off); }
int munmap(void*addr,size_t n) noexcept
{
    size_t len=(n+4095)&~4095ull;
    if(sim_in()) sim_forget_range((uintptr_t)addr,len);
    if(!on()) return (int)sc(sim_raw_syscall(SYS_munmap,(long)addr,n));
    sim_point(24,addr); if(((uintptr_t)addr&4095)||!n){ errno=EINVAL; return -1; }
    for(int i=0;i<nmaps;i++) if(maps[i].live&&maps[i].owner==-7&&(uintptr_t)addr<maps[i].a+maps[i].n&&maps[i].a<(uintptr_t)addr+len) sim::violate("C23","foreign mapping removed","munmap(%p, %zu) removes memory that is not its own",addr,n);
    delrange((uintptr_t)addr,len); int r=(int)sc(sim_raw_syscall(SYS_munmap,(long)addr,n)); sim_point(24,addr); return r;
}
int uname(struct utsname*u) noexcept { long r=sim_raw_syscall(SYS_uname,(long)u); if(kern::host_name&&sim_in()) snprintf(u->nodename,sizeof u->nodename,"%s",kern::host_name); if(sim_in()&&!kern::host_name) snprintf(u->nodename,sizeof u->nodename,"machine%d",node()); return (int)sc(r); }
int gethostname(char*b,size_t n) noexcept { struct utsname u; uname(&u); snprintf(b,n,"%s",u.nodename); return 0; }
}
const char*kern::host_name=nullptr; int kern::pid=4242; int kern::node_of[32], kern::pid_of[32];
void kern::mark_foreign(void*p){ for(int i=0;i<nmaps;i++) if(maps[i].live&&maps[i].a==(uintptr_t)p) maps[i].owner=-7; }
