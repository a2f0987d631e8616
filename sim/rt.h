// Simulator runtime: deterministic scheduler, simulated heap, race detector,
// simulated disk, clock and entropy.  Plain C interface, no library types.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
enum RtStrategy { RT_NONPREEMPT = 0, RT_RANDOM = 1, RT_PCT = 2, RT_OPBOUND = 3, RT_REPLAY = 4 };

struct RtConfig {
    int strategy;
    uint64_t seed;
    int switch_permille;     // RANDOM: probability of a switch at a sync point
    int mem;                 // 1: memory accesses are yield points as well
    int mem_period;          // RANDOM: mean number of accesses between memory preemptions
    int pct_depth;           // PCT: number of priority change points
    uint64_t pct_len;        // PCT: estimated number of points
    int spurious_permille;   // probability of a spurious condvar wake-up at a point
    int reuse;               // heap: 0 never reuse memory, 1 reuse immediately (LIFO)
    uint64_t max_points;     // sync points before the scheduler turns strictly fair
    uint64_t fair_points;    // further points before a livelock verdict
    uint64_t max_mem;        // instrumented accesses without a new operation before a runaway verdict
    int races;               // report races
    const char* trace;       // REPLAY: textual trace
};
// shared output buffer
void rt_out_init(char* buf, size_t cap);
void rt_out(const char* s, size_t n);
void rt_begin(const RtConfig* c);
void rt_finish(void);                       // emits trace/hash/stat lines
int rt_spawn(void (*fn)(void*), void* arg);
void rt_join(int tid);
int rt_self(void);
int rt_on(void);                            // start tracking library code; returns old flag
int rt_off(void);                           // returns old flag
void rt_restore(int old);
uint64_t rt_seq(void);                      // next event number of the history
void rt_op_point(void);
void rt_progress(void);      // an operation of many calls has completed one                     // yield point between operations
void rt_point_user(int kind);               // explicit yield point inside a critical section
void rt_violation(const char* cls, const char* msg); // records; does not return for fatal classes
void rt_fatal(const char* cls, const char* msg);
int rt_thread_blocked(int tid);             // 0 runnable, 1 on mutex, 2 on condvar, 3 other, 9 done
int rt_thread_in_lib(int tid);
void rt_run_tls_dtors(void);
void rt_iter(int it);                       // heap generation marker for leak detection
size_t rt_leaks(int it, char* desc, size_t cap); // bytes live that were allocated by library code in generation it
void rt_count(const char* name);            // statistic counter
// console: what the library prints goes to a buffer per simulated thread
void con_install(void);
void con_reset(void);
void bt_limit(int frames);                  // stack frames backtrace() finds (inlining varies); 0: all of them
size_t con_text(const char** text);         // of the calling thread; (size_t)-1 when it overflowed
// simulated disk
void fs_reset(void);
void fs_put(const char* name, const char* data, size_t n);
int fs_get(const char* name, const char** data, size_t* n);
void fs_mkdir(const char* name);
void fs_fault(const char* op, int nth, const char* act, long arg);
int fs_faults_fired(void);
int fs_fault_fired(const char* op);
int fs_open_handles(void);
void fs_clear_faults(void);
// simulated entropy
void rnd_seed(uint64_t s, int mode);
uint64_t rnd_calls(void);
uint32_t rnd_value(uint64_t i);
}
