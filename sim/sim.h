// Deterministic simulation runtime: interface for worlds and the driver.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>

namespace sim {

//------------------------------------------------------------- run identity
enum Outcome { RUN_NONE=0, RUN_OK=1, RUN_VIOLATION=2, RUN_OTHER=3, RUN_ERROR=4 };

enum FaultKind {
    F_SPURIOUS_WAKE, F_CAS_SPURIOUS, F_CLOCK_JUMP, F_THREAD_STALL, F_LATE_TIMER,
    F_ACTIVATE_THROW, F_WORK_THROW, F_SLOT_THROW, F_CALL_THROW, F_HANDLER_THROW,
    F_STREAM_FRAGMENT, F_STREAM_DELAY, F_STREAM_CUT, F_STREAM_CORRUPT, F_STREAM_WRITE_ERR,
    F_MMAP_FAIL, F_MMAP_MOVED, F_OPEN_FAIL, F_FTRUNCATE_FAIL, F_CLOSE_FAIL, F_STAT_FAIL,
    F_EINTR, F_LOCK_FAIL, F_HOLDER_CRASH,
    F_DNS_FAIL, F_DNS_SLOW, F_CONNECT_REFUSED, F_CONNECT_HANG, F_CONN_RESET, F_NET_FRAGMENT, F_NET_DELAY,
    F_LATE_RELEASE, F_MALLOC_FAIL, F_THREAD_CREATE_FAIL, F_CONSUMER_STALL,
    F_DEACTIVATE_THROW,
    F_READ_FAIL, F_WRITE_FAIL, F_DLOPEN_FAIL, F_LAUNCH_FAIL, F_CHILD_CRASH, F_RENAME_FAIL, F_BIND_FAIL, F_SEND_FAIL,
    F__COUNT
};
extern const char *const fault_names[F__COUNT];

// The scheduler's and workload's randomness all derive from one seed.
uint64_t rnd(void);                       // workload stream
uint64_t rnd(uint64_t n);                 // [0,n)
bool     chance(uint64_t num, uint64_t den);
double   rndf(void);
// A named, recorded and minimisable run parameter in [lo,hi]; 'simplest' is lo.
int64_t  param(const char *name, int64_t lo, int64_t hi);
// Does fault 'k' fire here? base probability num/den, scaled by the run's intensity for this kind.
bool     fault(FaultKind k, uint64_t num, uint64_t den);
uint64_t fault_value(FaultKind k, uint64_t n); // deterministic value attached to the last fired fault of this kind
void     enable_fault(FaultKind k);       // worlds opt in to fault kinds
void     faults_off(void);                // no more faults from here on
bool     faults_enabled(void);

//------------------------------------------------------------- oracles
// props: space separated property ids this oracle decides; "*" = every property.
void violate(const char *props, const char *sig, const char *fmt, ...) __attribute__((format(printf,3,4), noreturn));
#define SIM_CHECK(cond, props, sig, ...) do{ if(!(cond)) ::sim::violate(props, sig, __VA_ARGS__); }while(0)
bool property_is(const char *id);

// happens-before checking of user-visible data
void hb_write(const void *key, const char *props, const char *what);
void hb_read (const void *key, const char *props, const char *what);
void hb_forget(const void *key);

//------------------------------------------------------------- control
uint64_t now_ns(void);      // virtual monotonic time
uint64_t steps(void);
uint64_t waited_ns(void);   // how long the calling thread was ready to run but did not get a processor
void     enable_stalls(uint64_t oneIn,uint64_t maxNs,int onlyThread=-1); // threads lose their processor for up to maxNs
void     set_process(int p); int process(void); // the simulated process a thread belongs to; inherited by the threads it starts
int      self(void);        // simulated thread slot, -1 outside
uint64_t serial(void);      // unique number of the running thread, never reused
int      live_threads(void);
void     yield(void);       // a scheduling point
void     sleep_ns(uint64_t ns);
void     set_caps(uint64_t random_steps, uint64_t fair_steps);
void     count(const char *name, uint64_t n=1); // coverage counters (per run, reported)
void     note(const char *fmt, ...) __attribute__((format(printf,1,2))); // trace line (verbose replay only)
void     quiet(bool on);      // setup phases: switch threads only when one blocks, exits or spins
void     nosched_begin(void); // no preemption inside (harness bookkeeping)
void     nosched_end(void);
struct NoSched { NoSched(){nosched_begin();} ~NoSched(){nosched_end();} };
void     set_alloc_limit(size_t bytes); // a single allocation above the limit fails
void     set_heap_races(const char *props); // flag unsynchronised conflicting heap accesses in this run
void set_free_races(const char*props); // report accesses that nothing orders before the free of the block they touch
bool     in_fair_phase(void);
void     set_dump(void(*fn)(void*),void*arg); // verbose replays: called when a violation is reported

size_t   heap_live_bytes(void);
size_t   heap_live_blocks(void);
bool     heap_is_valid(const void *p, size_t n);

// simulated kernel (kern.cpp)
namespace kern {
void enable(bool on);                     // route open/close/mmap/flock/... into the simulation
size_t open_fds(void); size_t locks_held(void); size_t open_maps(void);
int make_file(const char*path,const void*data,size_t n,unsigned mode); size_t read_file(const char*path,void*out,size_t n);
int make_dir(const char*path); bool exists(const char*path); void set_mtime(const char*path,int64_t sec); void write_file(const char*path,const void*data,size_t n); size_t file_size(const char*path); void move(const char*from,const char*to);
size_t files_under(const char*prefix);     // names that exist
void exit_process(int thread);            // a simulated process (one thread's descriptors) dies
bool owns(uintptr_t a,size_t n); void *map(size_t n); void unmap(void*p,size_t n); void mark_foreign(void*p);
extern const char*host_name; extern int pid, node_of[32], pid_of[32]; // node_of[process]: which machine it runs on, 0 = not simulated
}

struct World { const char *name; void (*fn)(void); World *next; World(const char*n, void(*f)(void)); static World *head; };
#define SIM_WORLD(name) static void world_##name(void); static ::sim::World world_reg_##name(#name, &world_##name); static void world_##name(void)

//------------------------------------------------------------- driver side
struct Choice { uint64_t step; uint32_t val; uint32_t kind; }; // kind 0: schedule, 1: pick
struct FaultRec { uint32_t kind; uint32_t idx; };
struct ParamRec { char name[40]; int64_t val; };
struct CounterRec { char name[40]; uint64_t val; };
enum { MAX_CHOICES=1<<20, MAX_FAULTS=1<<14, MAX_PARAMS=256, MAX_COUNTERS=128, COV_BITS=1<<16 };
struct Shared { // result area shared between a run's process and the driver
    int outcome; int sig; uint64_t steps, switches, preempts, vtime, hash, swhash, syncops;
    uint32_t nthreads_max, nthreads_total; uint32_t policy; uint32_t fair_used;
    uint32_t nchoices, nfaults, nparams, ncounters; uint32_t overflow;
    uint32_t fault_fired[F__COUNT], fault_asked[F__COUNT];
    char signature[128]; char message[1600]; uint32_t nstack; uint64_t stack[24]; int vthread;
    uint8_t cov[COV_BITS/8];
    Choice choices[MAX_CHOICES]; FaultRec faults[MAX_FAULTS]; ParamRec params[MAX_PARAMS]; CounterRec counters[MAX_COUNTERS];
};
struct RunSpec { // lives in shared memory: filling it in must not touch the simulated heap
    char world[40], property[16]; uint64_t seed; uint64_t watch; int replay, verbose; // watch: heap address whose accesses a verbose replay prints
    uint32_t nchoices, nfaults, nparams; ParamRec params[MAX_PARAMS]; FaultRec faults[MAX_FAULTS]; Choice choices[MAX_CHOICES];
};
void run_child(const RunSpec &spec, Shared *sh) __attribute__((noreturn)); // in a freshly forked process
}
