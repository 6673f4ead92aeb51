// Simulated processes, pipes and the dynamic loader behind the calls the code under test makes (see proc.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
namespace sim { namespace proc {
struct Hooks {
    int  (*launch)(int pid,const char*cmd,const std::vector<std::string>&args,int outW,int errW); // 0: started, otherwise an errno.  The child owns the write ends it is given (-1: none)
    int  (*wait)(int pid);                       // blocks until the child has ended; returns its wait status
    void (*signal)(int pid,int sig);
    bool (*load)(const char*path);               // run a library's initialisers in the calling thread; false: cannot be loaded
    void (*unload)(const char*path);             // ... and its finalisers
};
void enable(const Hooks&h); void disable(void);
int  loaded(const char*path);                    // references the loader holds
size_t open_pipes(void); size_t unreaped(void);
long pipe_write(int fd,const void*b,size_t n);   // a child's side
void pipe_close(int fd);
} }
