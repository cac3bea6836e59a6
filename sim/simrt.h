// Deterministic simulation runtime: scheduler, race detector, heap, clock and fault injector.
// One simulated execution = one forked process in which exactly one (real) thread runs at a time; which one, and every
// fault, is decided by the plan's seed or by an explicit schedule.
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

enum { SIM_MAX_SWITCHES=1<<18, SIM_MAX_FAULTS=256, SIM_TEXT=1<<17, SIM_MAXT=16 };
enum sim_policy { POL_EXPLICIT=0, POL_RANDOM, POL_SYNC, POL_PCT, POL_CONFLICT, POL_STALL, POL_SEQ };
enum sim_heap_reuse { HEAP_LIFO=0, HEAP_FIFO, HEAP_RANDOM, HEAP_NEVER };
enum sim_heap_dir { DIR_UP=0, DIR_DOWN, DIR_SCATTER };

typedef struct { u64 event; u32 tid; u32 pad; } sim_switch;

// Shared with the parent process (MAP_SHARED): everything that a run reports.
typedef struct {
    // configuration
    u64 sched_seed; int policy; u32 quantum; u32 prob1024; int pct_depth; u64 pct_len;
    int heap_reuse; int heap_dir; u64 heap_seed; int heap_fill; int race_detect;
    u64 event_budget, access_budget;
    u32 nexplicit;
    // results
    u64 events, accesses, hash, allocs, sim_ns; u32 nswitches; int truncated_switches;
    u32 threads_created, max_live; u64 sync_ops; u64 conflicts; u64 interleaving_hash; u64 heap_peak;
    int nviol; int finished;
    u32 text_len; char text[SIM_TEXT];     // lines: "violation <class> <detail>" | "fault <kind> <n>" | "stat <k> <v>" | "probe .."
    u32 out_len; char out[SIM_TEXT];
    sim_switch explicit_sw[SIM_MAX_SWITCHES];
    sim_switch sw[SIM_MAX_SWITCHES];
} sim_shared;

extern sim_shared* sim_sh;
extern int sim_cpu;                         // index of the processor that runs are pinned to, or -1

void sim_begin(void);                       // enter simulated mode (called in the child, on the simulated main thread)
void sim_run_main(void (*fn)(void*), void* arg); // run fn on the simulated main thread with a fixed stack, then return
int  sim_self(void);
int  sim_active(void);
u64  sim_events(void);

// threads
int  sim_thread_create(void* (*fn)(void*), void* arg);
void sim_thread_join(int tid);
void sim_yield(void);

// happens-before edges and blocking objects for stubs
void sim_acquire(const void* obj);
void sim_release(const void* obj);
void sim_block(const void* obj);            // wait until sim_wake(obj)
void sim_wake(const void* obj);

// violations and reporting
void sim_violation(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
void sim_fatal(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3),noreturn));
void sim_report(const char* fmt, ...) __attribute__((format(printf,1,2)));
int  sim_nviolations(void);
void sim_hash_add(u64 v);
void sim_ignore_begin(void);                // accesses of this thread are not events and are not recorded
void sim_ignore_end(void);

// heap
u64  sim_alloc_count(void);                 // operator-new calls of this thread in the current armed window
void sim_alloc_arm(u64 fail_index, u64 fail_count); // the fail_index-th .. allocation from now on throws (per thread); ~0: only count
void sim_alloc_pause(int d);                // +1/-1: allocations of the harness itself do not fail
void sim_mp_access(const void* p, unsigned long n, int wr, unsigned pc);
u64  sim_alloc_disarm(void);                // returns number of operator-new calls seen since arming
int  sim_alloc_fired(void);                 // how many were made to fail since arming
u64  sim_live_blocks(void);                 // live operator-new blocks
u64  sim_live_bytes(void);
u64  sim_accesses(void);                    // memory accesses so far
u64  sim_alloc_mark(void);                  // id of the next block
int  sim_live_since(u64 mark, u64* ids, int n, u32* pcs); // live operator-new blocks with id>=mark
u32  sim_block_size(u64 id);
int  sim_addr_state(const void* p);         // 1 live heap, 2 freed heap, 3 redzone/unallocated, 0 not heap
void sim_heap_check(void);                  // verifies all redzones

// clock
void sim_clock_set(u64 wall_ns, u64 mono_ns);
void sim_clock_advance(u64 ns);
void sim_clock_jump_wall(int64_t ns);       // step of the wall clock only

u64  sim_mix(u64 x);
#ifdef __cplusplus
}
#endif
#endif
