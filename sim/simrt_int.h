#pragma once
#include <pthread.h>
#include <stdint.h>
#include <stddef.h>
int sim_real_pthread_join(pthread_t,void**);
long sim_raw_syscall(long n,long a=0,long b=0,long c=0,long d=0,long e=0,long f=0);
bool sim_in(void);
int sim_block_io(const void*addr,uint64_t deadline); // 0 woken, 1 timeout
int sim_wake_io(const void*addr);
void sim_point(int kind,const void*addr);
uint64_t sim_vtime(void);
void sim_prepare(void);
void sim_forget_range(uintptr_t a,size_t n);
void sim_acquire(const void*a); void sim_release(const void*a);
