// Simulated network behind the socket calls Poco makes.  See net.hpp.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "simrt_int.h"
#include "net.hpp"
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>

using namespace sim;
static bool non=false;
static inline bool on(){ return non&&sim_in(); }
enum { NH=16, NS=256, NE=64, NL=16, CAP=8192, SBASE=200000, EBASE=210000 };
struct Host { char name[32]; in_addr ip; int dns,tcp; uint64_t dnsDelay,tcpDelay; int bad; };
struct Sock { bool used,nonblock,conn,eofIn,reset,listening; int err; int peer; uint64_t readyAt; bool hang; in_addr ip; int port; unsigned char buf[CAP]; int head,count; bool shutW; bool queued,server; int host; bool dgram,v6; int proc; };
struct Ep { bool used; int n; struct { int fd; struct epoll_event ev; } e[8]; };
struct Lst { bool used; int host,port; int q[64]; int qn; int fd; in_addr at; }; // fd: the socket that listens, 0 = the world itself; at: address bound to, 0 = any
static Host hosts[NH]; static int nhosts; static Sock socks[NS]; static Ep eps[NE]; static Lst lsts[NL];
static char key; uint64_t net::lookups, net::connects; static uint64_t nresets;
static void changed(){ sim_release(&key); sim_wake_io(&key); }
static void block(uint64_t dl=~0ull){ sim_block_io(&key,dl); sim_acquire(&key); }
void net::enable(bool b){ non=b; }
int net::add_host(const char*n,const char*ip){ Host&h=hosts[nhosts]; snprintf(h.name,sizeof h.name,"%s",n); inet_aton(ip,&h.ip); return nhosts++; }
void net::set_dns(int h,int m,uint64_t d){ hosts[h].dns=m; hosts[h].dnsDelay=d; }
void net::set_tcp(int h,int m,uint64_t d){ hosts[h].tcp=m; hosts[h].tcpDelay=d; }
bool net::lookups_pending(int h){ return hosts[h].bad>0; }
void net::listen(int h,int p){ for(auto&l:lsts) if(!l.used){ l.used=true; l.host=h; l.port=p; l.qn=0; l.fd=0; l.at.s_addr=0; return; } }
static void drop_queue(Lst*l){ for(int i=0;i<l->qn;i++){ Sock&q=socks[l->q[i]]; if(q.peer>=0){ socks[q.peer].reset=true; socks[q.peer].peer=-1; } q.used=false; } l->qn=0; l->used=false; }
void net::unlisten(int h,int p){ for(auto&l:lsts) if(l.used&&l.host==h&&l.port==p) drop_queue(&l); changed(); }
size_t net::open_sockets(void){ size_t n=0; for(auto&s:socks) n+=s.used; return n; }
size_t net::open_epolls(void){ size_t n=0; for(auto&s:eps) n+=s.used; return n; }
uint64_t net::resets(void){ return nresets; }
static Sock*S(int fd){ return fd>=SBASE&&fd<SBASE+NS&&socks[fd-SBASE].used?&socks[fd-SBASE]:nullptr; }
static int newsock(){ for(int i=0;i<NS;i++) if(!socks[i].used){ memset(&socks[i],0,sizeof(Sock)-0); socks[i].used=true; socks[i].peer=-1; return i; } errno=EMFILE; return -1; }
// addresses of the local machine (host 0): 127.0.0.1, and ::1 which is written 127.0.0.2 in here
static in_addr get_addr(const struct sockaddr*a,int*port,bool*v6){ in_addr r; r.s_addr=0; *v6=a->sa_family==AF_INET6; if(*v6){ const struct sockaddr_in6*i=(const struct sockaddr_in6*)a; *port=ntohs(i->sin6_port); if(i->sin6_addr.s6_addr[15]==1) r.s_addr=htonl(0x7f000002); } else { const struct sockaddr_in*i=(const struct sockaddr_in*)a; r=i->sin_addr; *port=ntohs(i->sin_port); } return r; }
static bool loopback(in_addr a){ return (ntohl(a.s_addr)>>24)==0x7f; }
static Lst*lst_of(int fd){ for(auto&l:lsts) if(l.used&&l.fd==fd) return &l; return nullptr; }
static Lst*lst_for(int h,in_addr ip,int port){ for(auto&x:lsts) if(x.used&&x.host==h&&x.port==port&&(!x.at.s_addr||x.at.s_addr==ip.s_addr)) return &x; return nullptr; }
void (*net::on_datagram)(int port,const char*data,size_t n,bool lost)=nullptr; int net::next_port=40000;
static void settle(Sock&s){ if(!s.conn&&s.readyAt&&!s.hang&&sim_vtime()>=s.readyAt&&!s.err&&s.peer>=0) s.conn=true; }
static unsigned ready(Sock&s)
{
    settle(s); unsigned r=0;
    if(s.dgram) return (s.count||s.reset?EPOLLIN:0)|EPOLLOUT;
    if(s.listening){ Lst*l=lst_of((int)(&s-socks)+SBASE); if(l) for(int i=0;i<l->qn;i++) if(socks[l->q[i]].readyAt<=sim_vtime()) r|=EPOLLIN; return r; }
    if(s.err&&(!s.readyAt||sim_vtime()>=s.readyAt)) return EPOLLERR|EPOLLHUP|EPOLLIN|EPOLLOUT;
    if(s.reset) return EPOLLERR|EPOLLHUP|EPOLLIN|EPOLLOUT;
    if(s.conn){ if(s.count||s.eofIn) r|=EPOLLIN; Sock*p=s.peer>=0?&socks[s.peer]:nullptr; if(!p||p->count<CAP) r|=EPOLLOUT; }
    return r;
}
int net::accept(int h,int port,char*peer,size_t n)
{
    for(;;){
        sim_point(30,&key); Lst*l=nullptr; for(auto&x:lsts) if(x.used&&x.host==h&&x.port==port) l=&x;
        if(!l) return -1; uint64_t dl=~0ull;
        for(int i=0;i<l->qn;i++){ Sock&s=socks[l->q[i]]; if(s.readyAt<=sim_vtime()){ int f=l->q[i]; l->qn--; for(int k=i;k<l->qn;k++) l->q[k]=l->q[k+1]; s.conn=true; s.queued=false; snprintf(peer,n,"10.9.9.9"); sim_acquire(&key); return SBASE+f; } if(s.readyAt<dl) dl=s.readyAt; }
        block(dl);
    }
}
static void reset_pair(Sock&s){ s.reset=true; if(s.peer>=0) socks[s.peer].reset=true; nresets++; sim::count("connections reset"); changed(); }

int sim_net_close(int fd)
{
    if(fd>=EBASE&&fd<EBASE+NE&&eps[fd-EBASE].used){ eps[fd-EBASE].used=false; return 0; }
    Sock*s=S(fd); if(!s){ if(fd>=SBASE&&fd<EBASE+NE){ if(on()) sim::violate("C24","double close","socket %d closed while not open",fd); errno=EBADF; return -1; } return -2; }
    sim_point(31,&key); s->used=false;
    if(s->listening) if(Lst*l=lst_of(fd)){ drop_queue(l); }
    if(s->peer>=0){ Sock&p=socks[s->peer]; p.eofIn=true; if(s->count) p.reset=true; p.peer=-1; } // one that nobody accepted yet stays in the queue
    changed(); return 0;
}
// A process is gone: what it had open is closed.  Threads of it that still run get errors.
void net::exit_process(int proc)
{
    for(auto&s:socks) if(s.used&&s.proc==proc&&!s.queued){
        if(s.listening){ if(Lst*l=lst_of((int)(&s-socks)+SBASE)){ drop_queue(l); } s.listening=false; }
        s.reset=true; if(s.peer>=0){ Sock&p=socks[s.peer]; p.eofIn=true; if(s.count) p.reset=true; p.peer=-1; s.peer=-1; if(p.queued){ p.reset=true; } } }
    changed();
}
bool net::listening(int proc){ for(auto&s:socks) if(s.used&&s.listening&&s.proc==proc) return true; return false; }
int net::listen_port(int proc){ for(auto&s:socks) if(s.used&&s.listening&&s.proc==proc) return s.port; return -1; }
extern "C" {
int socket(int d,int t,int p) noexcept { if(!on()) return (int)sim_raw_syscall(SYS_socket,d,t,p); if((t&0xff)!=SOCK_STREAM&&(t&0xff)!=SOCK_DGRAM){ errno=EACCES; return -1; } sim_point(32,&key); int i=newsock(); if(i<0) return -1; socks[i].dgram=(t&0xff)==SOCK_DGRAM; socks[i].v6=d==AF_INET6; socks[i].proc=sim::process(); return SBASE+i; }
int bind(int fd,const struct sockaddr*a,socklen_t n) noexcept
{
    Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } sim_point(50,&key); bool v6; int port; in_addr ip=get_addr(a,&port,&v6); s->v6=v6; bool local=!ip.s_addr||loopback(ip)||(nhosts&&hosts[0].ip.s_addr==ip.s_addr); if(!local){ errno=EADDRNOTAVAIL; return -1; }
    if(sim::fault(F_BIND_FAIL,1,6)){ errno=EADDRINUSE; return -1; }
    if(port&&s->dgram){ for(auto&x:socks) if(x.used&&x.dgram&&x.port==port&&&x!=s){ errno=EADDRINUSE; return -1; } }
    else if(port==0) do port=net::next_port++; while(lst_for(0,ip,port)); else for(auto&x:lsts) if(x.used&&x.host==0&&x.port==port){ errno=EADDRINUSE; return -1; }
    s->ip=ip; s->port=port; return 0;
}
int listen(int fd,int) noexcept
{
    Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } sim_point(51,&key); for(auto&l:lsts) if(l.used&&l.host==0&&l.port==s->port){ errno=EADDRINUSE; return -1; }
    for(auto&l:lsts) if(!l.used){ l.used=true; l.host=0; l.port=s->port; l.qn=0; l.fd=fd; l.at=s->ip; s->listening=true; changed(); return 0; } errno=EADDRINUSE; return -1;
}
static int addr_out(in_addr ip,int port,struct sockaddr*a,socklen_t*n);
static int addr_out6(in_addr ip,int port,struct sockaddr*a,socklen_t*n){ struct sockaddr_in6 in; memset(&in,0,sizeof in); in.sin6_family=AF_INET6; in.sin6_port=htons((uint16_t)port); if(ip.s_addr) in.sin6_addr.s6_addr[15]=1; memcpy(a,&in,*n<sizeof in?*n:sizeof in); *n=sizeof in; return 0; }
static int addr_of(Sock&s,in_addr ip,int port,struct sockaddr*a,socklen_t*n){ return s.v6?addr_out6(ip,port,a,n):addr_out(ip,port,a,n); }
int accept(int fd,struct sockaddr*a,socklen_t*n)
{
    Sock*s=S(fd); if(!s||!s->listening){ errno=EBADF; return -1; } sim_point(52,&key); if(sim::fault(F_EINTR,1,20)){ errno=EINTR; return -1; }
    for(;;){
        Lst*l=lst_of(fd); if(!s->listening||!l){ errno=EINVAL; return -1; } uint64_t dl=~0ull;
        for(int i=0;i<l->qn;i++){ const int f=l->q[i]; Sock&c=socks[f]; if(c.readyAt<=sim_vtime()){ l->qn--; for(int k=i;k<l->qn;k++) l->q[k]=l->q[k+1]; c.conn=true; c.queued=false; c.proc=sim::process(); sim_acquire(&key); if(a) addr_of(c,c.ip,c.port,a,n); return SBASE+f; } if(c.readyAt<dl) dl=c.readyAt; }
        if(s->nonblock){ errno=EAGAIN; return -1; }
        block(dl);
    }
}
int accept4(int fd,struct sockaddr*a,socklen_t*n,int){ return accept(fd,a,n); }
ssize_t sendto(int fd,const void*b,size_t n,int fl,const struct sockaddr*a,socklen_t an)
{
    Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } if(!s->dgram) return send(fd,b,n,fl); sim_point(53,&key); bool v6; int port; get_addr(a,&port,&v6); const bool bad=sim::fault(F_SEND_FAIL,1,6); if(net::on_datagram){ sim::NoSched q; net::on_datagram(port,(const char*)b,n,bad); } if(bad){ errno=ENETUNREACH; return -1; } for(auto&x:socks) if(x.used&&x.dgram&&x.port==port&&&x!=s){ if(x.count+2+(int)n>CAP){ sim::count("datagrams dropped"); break; } auto put=[&](unsigned char c){ x.buf[(x.head+x.count++)%CAP]=c; }; put((unsigned char)(n>>8)); put((unsigned char)n); for(size_t i=0;i<n;i++) put(((const unsigned char*)b)[i]); changed(); break; } return (ssize_t)n;
}
ssize_t recvfrom(int fd,void*b,size_t n,int fl,struct sockaddr*a,socklen_t*an)
{
    Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } if(!s->dgram) return recv(fd,b,n,fl); sim_point(54,&key); if(sim::fault(F_EINTR,1,20)){ errno=EINTR; return -1; }
    for(;;){ if(s->count){ auto get=[&]{ unsigned char c=s->buf[s->head]; s->head=(s->head+1)%CAP; s->count--; return c; }; size_t m=(size_t)get()<<8; m|=get(); for(size_t i=0;i<m;i++){ unsigned char c=get(); if(i<n) ((unsigned char*)b)[i]=c; } if(a){ in_addr ip; ip.s_addr=htonl(0x7f000001); addr_of(*s,ip,40000,a,an); } sim_acquire(&key); return (ssize_t)(m<n?m:n); }
        if(s->nonblock){ errno=EAGAIN; return -1; } block(); }
}
int connect(int fd,const struct sockaddr*a,socklen_t n)
{
    Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } sim_point(33,&key); net::connects++;
    int h=-1; s->ip=get_addr(a,&s->port,&s->v6); if(!s->ip.s_addr) s->ip.s_addr=htonl(s->v6?0x7f000002:0x7f000001); if(loopback(s->ip)&&nhosts) h=0;
    for(int i=0;i<nhosts;i++) if(hosts[i].ip.s_addr==s->ip.s_addr) h=i;
    uint64_t at=sim_vtime(); int mode=net::TCP_UNREACHABLE; if(h>=0){ mode=hosts[h].tcp; at+=hosts[h].tcpDelay; }
    Lst*l=lst_for(h,s->ip,s->port); if(h>=0&&mode==net::TCP_OK&&(!l||l->qn==64)) mode=net::TCP_REFUSE;
    s->readyAt=at?at:1; s->host=h;
    if(mode==net::TCP_HANG){ s->hang=true; sim::fault(F_CONNECT_HANG,1,1); }
    else if(mode==net::TCP_REFUSE){ s->err=ECONNREFUSED; sim::fault(F_CONNECT_REFUSED,1,1); }
    else if(mode==net::TCP_UNREACHABLE){ s->err=EHOSTUNREACH; if(at==sim_vtime()){ errno=EHOSTUNREACH; return -1; } }
    else { int i=newsock(); if(i<0) return -1; Sock&p=socks[i]; p.peer=fd-SBASE; p.queued=true; p.server=true; p.v6=s->v6; p.proc=-1; if(loopback(s->ip)) p.ip=s->ip; else inet_aton("10.9.9.9",&p.ip); p.port=40000; p.readyAt=s->readyAt; s->peer=i; l->q[l->qn++]=i; changed(); if(at==sim_vtime()&&sim::chance(1,2)){ s->conn=true; return 0; } }
    if(s->nonblock){ errno=EINPROGRESS; return -1; }
    for(;;){ if(s->err&&sim_vtime()>=s->readyAt){ errno=s->err; s->err=0; return -1; } settle(*s); if(s->conn) return 0; uint64_t dl=s->hang?~0ull:s->readyAt; if(s->hang){ dl=s->readyAt+130000000000ull; if(sim_vtime()>=dl){ errno=ETIMEDOUT; return -1; } } block(dl); }
}
int getsockopt(int fd,int lv,int o,void*v,socklen_t*n) noexcept { Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } if(lv==SOL_SOCKET&&o==SO_ERROR){ settle(*s); *(int*)v=s->reset?ECONNRESET:(s->readyAt&&sim_vtime()<s->readyAt)?0:s->err; s->err=0; *n=sizeof(int); return 0; } memset(v,0,*n); if(lv==SOL_SOCKET&&(o==SO_RCVBUF||o==SO_SNDBUF)) *(int*)v=CAP; return 0; }
int setsockopt(int fd,int,int,const void*,socklen_t) noexcept { Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } return 0; }
static int addr_out(in_addr ip,int port,struct sockaddr*a,socklen_t*n){ struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family=AF_INET; in.sin_addr=ip; in.sin_port=htons((uint16_t)port); memcpy(a,&in,*n<sizeof in?*n:sizeof in); *n=sizeof in; return 0; }
int getpeername(int fd,struct sockaddr*a,socklen_t*n) noexcept { Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } if(s->server) return addr_of(*s,s->ip,40000,a,n); if(!s->conn){ errno=ENOTCONN; return -1; } return addr_of(*s,s->ip,s->port,a,n); }
int getsockname(int fd,struct sockaddr*a,socklen_t*n) noexcept { Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } if(s->listening||s->dgram) return addr_of(*s,s->ip,s->port,a,n); in_addr ip; inet_aton("10.9.9.9",&ip); return addr_of(*s,ip,40000,a,n); }
int ioctl(int fd,unsigned long rq,...) noexcept { va_list ap; va_start(ap,rq); void*p=va_arg(ap,void*); va_end(ap); Sock*s=S(fd); if(!s) return (int)sim_raw_syscall(SYS_ioctl,fd,rq,(long)p); if(rq==FIONBIO){ s->nonblock=*(int*)p!=0; return 0; } if(rq==FIONREAD){ *(int*)p=s->count; return 0; } errno=EINVAL; return -1; }
int fcntl64(int fd,int c,...){ va_list ap; va_start(ap,c); long a=va_arg(ap,long); va_end(ap); Sock*s=S(fd); if(!s){ long r=sim_raw_syscall(SYS_fcntl,fd,c,a); if(r<0){ errno=(int)-r; return -1; } return (int)r; } if(c==F_GETFL) return O_RDWR|(s->nonblock?O_NONBLOCK:0); if(c==F_SETFL){ s->nonblock=(a&O_NONBLOCK)!=0; return 0; } return 0; }
int shutdown(int fd,int how) noexcept { Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } sim_point(34,&key); if(s->peer>=0&&how!=SHUT_RD) socks[s->peer].eofIn=true; if(how!=SHUT_WR) s->eofIn=true; if(how!=SHUT_RD) s->shutW=true; changed(); return 0; }
int epoll_create(int) noexcept { sim_point(35,&key); for(int i=0;i<NE;i++) if(!eps[i].used){ eps[i].used=true; eps[i].n=0; return EBASE+i; } errno=EMFILE; return -1; }
int epoll_create1(int) noexcept { return epoll_create(1); }
int epoll_ctl(int ep,int op,int fd,struct epoll_event*ev) noexcept { Ep&e=eps[ep-EBASE]; if(op==EPOLL_CTL_ADD){ e.e[e.n].fd=fd; e.e[e.n].ev=*ev; e.n++; return 0; } for(int i=0;i<e.n;i++) if(e.e[i].fd==fd){ if(op==EPOLL_CTL_MOD) e.e[i].ev=*ev; else { e.e[i]=e.e[--e.n]; } return 0; } errno=ENOENT; return -1; }
int epoll_wait(int ep,struct epoll_event*out,int max,int ms)
{
    Ep&e=eps[ep-EBASE]; uint64_t end=ms<0?~0ull:sim_vtime()+(uint64_t)ms*1000000ull;
    sim_point(36,&key);
    if(sim::fault(F_EINTR,1,12)){ errno=EINTR; return -1; }
    for(;;){
        int n=0; uint64_t dl=end; for(int i=0;i<e.n&&n<max;i++){ Sock*s=S(e.e[i].fd); if(!s) continue; unsigned r=ready(*s)&(e.e[i].ev.events|EPOLLERR|EPOLLHUP); if(r){ out[n]=e.e[i].ev; out[n].events=r; n++; } else if(s->readyAt>sim_vtime()&&!s->hang&&s->readyAt<dl) dl=s->readyAt; }
        if(n){ sim_acquire(&key); return n; } if(sim_vtime()>=end) return 0;
        block(dl);
    }
}
int poll(struct pollfd*,unsigned long,int){ errno=ENOSYS; return -1; }
ssize_t send(int fd,const void*b,size_t n,int)
{
    Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } sim_point(37,&key);
    if(sim::fault(F_CONN_RESET,1,160)) reset_pair(*s);
    for(;;){
        if(s->reset){ errno=ECONNRESET; return -1; } if(s->shutW||s->peer<0){ errno=EPIPE; return -1; }
        Sock&p=socks[s->peer]; size_t room=CAP-p.count; if(n==0) return 0;
        if(room){ size_t k=n<room?n:room; if(k>1&&sim::fault(F_NET_FRAGMENT,1,6)) k=1+sim::fault_value(F_NET_FRAGMENT,k-1); for(size_t i=0;i<k;i++) p.buf[(p.head+p.count++)%CAP]=((const unsigned char*)b)[i]; changed(); return (ssize_t)k; }
        if(s->nonblock){ errno=EAGAIN; return -1; } block();
    }
}
ssize_t recv(int fd,void*b,size_t n,int)
{
    Sock*s=S(fd); if(!s){ errno=EBADF; return -1; } sim_point(38,&key);
    if(sim::fault(F_CONN_RESET,1,160)) reset_pair(*s);
    if(sim::fault(F_NET_DELAY,1,16)) sim::sleep_ns(1+sim::fault_value(F_NET_DELAY,20000000));
    for(;;){
        if(s->reset){ errno=ECONNRESET; return -1; }
        if(s->count){ size_t k=(size_t)s->count<n?(size_t)s->count:n; if(k>1&&sim::fault(F_NET_FRAGMENT,1,6)) k=1+sim::fault_value(F_NET_FRAGMENT,k-1); for(size_t i=0;i<k;i++) ((unsigned char*)b)[i]=s->buf[(s->head+i)%CAP]; s->head=(s->head+(int)k)%CAP; s->count-=(int)k; sim_acquire(&key); changed(); return (ssize_t)k; }
        if(s->eofIn) return 0;
        if(s->nonblock){ errno=EAGAIN; return -1; }
        if(sim::fault(F_EINTR,1,20)){ errno=EINTR; return -1; }
        block();
    }
}
int getaddrinfo(const char*node,const char*svc,const struct addrinfo*hints,struct addrinfo**res)
{
    if(!on()) return EAI_FAIL;
    if(!node){ errno=EINVAL; return EAI_NONAME; }
    if(strchr(node,':')){ struct in6_addr i6; if(inet_pton(AF_INET6,node,&i6)!=1) return EAI_NONAME; struct B { struct addrinfo a; struct sockaddr_in6 in; char name[64]; }; B*x=(B*)calloc(1,sizeof(B)); x->in.sin6_family=AF_INET6; x->in.sin6_addr=i6; x->a.ai_family=AF_INET6; x->a.ai_socktype=SOCK_STREAM; x->a.ai_addrlen=sizeof x->in; x->a.ai_addr=(struct sockaddr*)&x->in; snprintf(x->name,sizeof x->name,"%s",node); x->a.ai_canonname=x->name; *res=&x->a; return 0; }
    sim_point(39,&key); net::lookups++; int h=-1; for(int i=0;i<nhosts;i++) if(!strcmp(hosts[i].name,node)) h=i;
    if(h<0) return EAI_NONAME;
    const int mode=hosts[h].dns; const uint64_t d=hosts[h].dnsDelay; const bool bad=mode||d>50000000ull; if(bad) hosts[h].bad++;
    if(d){ sim::fault(F_DNS_SLOW,1,1); sim::sleep_ns(d); }
    if(bad) hosts[h].bad--;
    if(mode){ sim::fault(F_DNS_FAIL,1,1); static const int e[]={EAI_NONAME,EAI_AGAIN,EAI_FAIL}; return e[d%3]; }
    struct A { struct addrinfo a; struct sockaddr_in in; char name[32]; }; A*x=(A*)calloc(1,sizeof(A)); x->in.sin_family=AF_INET; x->in.sin_addr=hosts[h].ip; x->a.ai_family=AF_INET; x->a.ai_socktype=SOCK_STREAM; x->a.ai_addrlen=sizeof x->in; x->a.ai_addr=(struct sockaddr*)&x->in; snprintf(x->name,sizeof x->name,"%s",node); x->a.ai_canonname=x->name; *res=&x->a; return 0;
}
void freeaddrinfo(struct addrinfo*a) noexcept { free(a); }
}
