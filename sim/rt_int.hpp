// Internal data of the simulation runtime.
#pragma once
#include "rt.hpp"
#include <pthread.h>

namespace sim {
enum { MAX_T = 64, MAX_PARAMS = 160, MAX_FAULTS = 32, MAX_STATES = 64, MAX_TRACE = 1 << 17 };
enum { TS_FREE = 0, TS_RUN = 1, TS_BLOCK = 2, TS_DONE = 3, TS_SLEEP = 4 };
enum { SK_RANDOM = 0, SK_PCT = 1, SK_STALL = 2, SK_SYNC = 3, SK_SEQ = 4, SK_EXPLICIT = 5 };
enum { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_HARNESS = 3, ST_HANG = 4, ST_DISCARD = 5 };

constexpr uintptr_t ARENA_BASE   = 0x200000000000ull;
constexpr uintptr_t ARENA_SIZE   = 0x28000000ull;  // 640 MB of address space, touched lazily
constexpr uintptr_t ADDR_BASE    = 0x210000000000ull;
constexpr uintptr_t STACK_BASE   = 0x220000000000ull;
constexpr uintptr_t STACK_STRIDE = 0x1000000ull;
constexpr size_t    STACK_SIZE   = 8u << 20;
constexpr size_t    ALT_STACK    = 64u << 10;
constexpr uint64_t  MONO_BASE    = 1000000000000ull;
constexpr int64_t   WALL_BASE    = 1700000000000000000ll;
constexpr uint64_t  NS_PER_STEP  = 1;
constexpr uint32_t  MAGIC_LIVE   = 0x5AFEB10Cu;
constexpr uint32_t  MAGIC_FREE   = 0xDEADB10Cu;

struct SyncObj;

struct Th {
    int       tid;
    int       state;
    uint32_t  futex;
    pthread_t os;
    void*     stack;
    void*     altstack;
    uint32_t  vc[MAX_T];
    uint64_t  stream, draws, nchildren;
    int64_t   prio;
    uint64_t  deadline;
    SyncObj*  wait_on;
    Th*       wait_thread;
    void (*body)();
    const std::function<void()>* fn;
    void* (*pfn)(void*);
    void* parg;
    void* retval;
    // OpenMP
    void*    team;
    unsigned num, ws, omp_threads;
    long     static_chunk;
};

struct Switch {
    uint64_t step;
    int      tid, forced;
};
struct Param {
    char     name[40], base[32];
    uint64_t val, lo, hi;
};
struct FaultCount {
    char     name[32];
    uint64_t n;
};
struct Override {
    char     name[40];
    uint64_t val;
};
struct Replay {
    uint64_t seed;
    char     scenario[64];
    Override params[MAX_PARAMS];
    unsigned nparams;
    bool     explicit_;
    Switch*  sw;
    unsigned nsw;
};
struct Result {
    int        status;
    char       msg[2000];
    char       scenario[64];
    unsigned   nparams;
    Param      params[MAX_PARAMS];
    unsigned   nfaults;
    FaultCount faults[MAX_FAULTS];
    unsigned   nstates;
    uint64_t   states[MAX_STATES];
    uint64_t   steps, serial, switches, forced, sim_ns, sched_hash, trace_hash, fail_step, entropy_draws, accesses;
    uint64_t   regions, par_regions, max_live, chunks, contended, sleeps, clock_reads;
    int        fail_tid, nontrivial, trace_overflow;
    unsigned   kind;
    uint64_t   pc[4];
    unsigned   npc;
    unsigned   ntrace;
    Switch     trace[MAX_TRACE];
};
struct BlockHdr {
    uint64_t  size;
    uint32_t  seq;
    uint32_t  magic;
    uintptr_t self;
    uint64_t  tag;
};
static_assert(sizeof(BlockHdr) == 32, "header");
struct Heap {
    HeapStats st;
    uint32_t  seq;
    unsigned  garbage;
    int       pause;
    bool      counting, sticky;
    uint64_t  count, fail_at, fail_size, failed;
};
struct Global {
    Th       th[MAX_T];
    int      ntid, cur, live;
    bool     multi, in_run, verbose;
    uint64_t seed, srng;
    uint64_t step, serial_steps, step_limit, base_step;
    int64_t  budget, base_budget;
    uint64_t sched_hash, accesses, max_live, stalls;
    unsigned kind, npct;
    uint64_t mean, pct[16];
    int      victim;
    int64_t  low_prio;
    unsigned gen, evict;
    Switch*  xs;
    unsigned nx, xi;
    unsigned team, team_cap;
    int      entropy;
    uint64_t words;
    uint64_t parent_draws;
    uint64_t mono_ns;
    int64_t  wall_off, wall_skew;
    unsigned sleep_eintr;
    Heap     heap;
    char*    bump;
    uint8_t* addr;
    char     scratch[256];
    char     want_scenario[64];
    Override override_[MAX_PARAMS];
    unsigned noverride;
    unsigned job, param0;
    bool     same_job, reuse;
    uint64_t reused;
    pthread_key_t exit_key;
};
extern Global G;
extern Result* R;
const BlockHdr* block_of(uintptr_t a);
}  // namespace sim
unsigned sim_tier();
