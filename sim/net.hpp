// A simulated network: name service, TCP connections and the socket calls the code under test makes through Poco.
#pragma once
#include <cstdint>
#include <cstddef>
namespace sim { namespace net {
void enable(bool on);
enum { DNS_OK=0, DNS_FAIL=1 };
enum { TCP_OK=0, TCP_REFUSE=1, TCP_HANG=2, TCP_UNREACHABLE=3 };
int  add_host(const char*name,const char*ip);                 // returns its index
void set_dns(int host,int mode,uint64_t delayNs);             // applies to lookups that start afterwards
void set_tcp(int host,int mode,uint64_t delayNs);             // applies to connection attempts that start afterwards
bool lookups_pending(int host);                               // of lookups that were started while the name service misbehaved
void listen(int host,int port); void unlisten(int host,int port);
int  accept(int host,int port,char*peer,size_t n);            // blocks; -1 when the listener is gone
size_t open_sockets(void); size_t open_epolls(void);
bool was_reset(void); uint64_t resets(void);                  // connections the simulation broke
// servers made of simulated sockets live on host 0, which is also 127.0.0.1 and ::1
void exit_process(int proc); bool listening(int proc); int listen_port(int proc);
extern void (*on_datagram)(int port,const char*data,size_t n,bool lost); extern int next_port;
extern uint64_t lookups, connects;
} }
