// Deterministic simulation runtime (never instrumented itself).  See rt.hpp and DESIGN.md.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <exception>
#include <new>
#include <random>
#include <typeinfo>

#include "rt_int.hpp"

namespace sim {

// =====================================================================================================================
// globals
// =====================================================================================================================
Global              G;
thread_local Th*    self = nullptr;
Result*             R    = nullptr;
static Scenario*    g_scenarios = nullptr;

Scenario::Scenario(const char* p, const char* n, unsigned w, void (*f)())
  : prop(p), name(n), weight(w), fn(f), next(g_scenarios) {
    g_scenarios = this;
}

static inline uint64_t splitmix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t hash_str(const char* s) {
    uint64_t h = 1469598103934665603ull;
    while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull;
    return splitmix(h);
}
uint64_t sched_rand() {
    G.srng = splitmix(G.srng);
    return G.srng;
}

// =====================================================================================================================
// verdicts
// =====================================================================================================================
static void finish_counters() {
    R->steps     = G.step;
    R->serial    = G.serial_steps;
    R->sim_ns    = G.mono_ns - MONO_BASE;
    R->sched_hash = G.sched_hash;
    R->max_live  = G.max_live;
    R->accesses  = G.accesses;
}

[[noreturn]] static void leave(int status) {
    finish_counters();
    R->trace_hash = mix(R->trace_hash, G.sched_hash);
    __atomic_store_n(&R->status, status, __ATOMIC_RELEASE);
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

void vfail(int status, const char* fmt, va_list ap) {
    static int once = 0;
    if (__atomic_exchange_n(&once, 1, __ATOMIC_ACQ_REL)) {
        for (;;) pause();
    }
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    R->fail_step = G.step;
    R->fail_tid  = self ? self->tid : -1;
    leave(status);
}
void fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfail(ST_VIOLATION, fmt, ap);
    __builtin_unreachable();
}
[[noreturn]] void harness_error(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfail(ST_HARNESS, fmt, ap);
    __builtin_unreachable();
}
// the run went beyond what the simulator provides: no verdict from it
[[noreturn]] static void discard(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfail(ST_DISCARD, fmt, ap);
    __builtin_unreachable();
}
void note_state(uint64_t h) {
    h = splitmix(h);
    if (R->nstates < MAX_STATES) R->states[R->nstates++] = h;
    R->trace_hash = mix(R->trace_hash, h);
}
void trace(const char* fmt, ...) {
    char    buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    R->trace_hash = mix(R->trace_hash, hash_str(buf));
    if (G.verbose) dprintf(2, "[trace step=%llu t%d] %s\n", (unsigned long long)G.step, self ? self->tid : -1, buf);
}
void nontrivial() {
    R->nontrivial = 1;
}
void count_fault(const char* kind, uint64_t n) {
    if (!n || !R) return;
    for (unsigned i = 0; i < R->nfaults; ++i)
        if (!strcmp(R->faults[i].name, kind)) {
            R->faults[i].n += n;
            return;
        }
    if (R->nfaults < MAX_FAULTS) {
        snprintf(R->faults[R->nfaults].name, sizeof R->faults[0].name, "%s", kind);
        R->faults[R->nfaults++].n = n;
    }
}

// =====================================================================================================================
// decisions
// =====================================================================================================================
uint64_t pick(const char* name, uint64_t lo, uint64_t hi) {
    char     key[40];
    unsigned occ = 0;
    for (unsigned i = G.param0; i < R->nparams; ++i)
        if (!strcmp(R->params[i].base, name)) ++occ;
    // an earlier job of the run either makes decisions of its own or repeats those of the main job
    char pre[8] = "";
    if (G.job && !G.same_job) snprintf(pre, sizeof pre, "h%u.", G.job);
    if (occ)
        snprintf(key, sizeof key, "%s%s#%u", pre, name, occ);
    else
        snprintf(key, sizeof key, "%s%s", pre, name);
    uint64_t v = lo + (hi > lo ? splitmix(splitmix(G.seed) ^ hash_str(key)) % (hi - lo + 1) : 0);
    for (unsigned i = 0; i < G.noverride; ++i)
        if (!strcmp(G.override_[i].name, key)) {
            v = G.override_[i].val;
            if (v < lo) v = lo;
            if (v > hi) v = hi;
        }
    if (R->nparams < MAX_PARAMS) {
        Param& p = R->params[R->nparams++];
        snprintf(p.name, sizeof p.name, "%s", key);
        snprintf(p.base, sizeof p.base, "%s", name);
        p.val = v;
        p.lo  = lo;
        p.hi  = hi;
    }
    R->trace_hash = mix(R->trace_hash, v);
    if (G.verbose) dprintf(2, "[pick] %s = %llu  in [%llu,%llu]\n", key, (unsigned long long)v, (unsigned long long)lo,
                           (unsigned long long)hi);
    return v;
}
Rng rng(const char* name) {
    return Rng(splitmix(splitmix(G.seed) ^ hash_str(name) ^ 0x5bd1e995u ^ (uint64_t(G.job) << 40)));
}

// =====================================================================================================================
// real functions behind the seams
// =====================================================================================================================
template <typename F>
static F real(const char* name) {
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) p = dlsym(RTLD_DEFAULT, name);
    return reinterpret_cast<F>(p);
}
#define REAL(ret, name, ...)                                                    \
    static ret (*real_##name)(__VA_ARGS__) = nullptr;                           \
    if (!real_##name) real_##name = sim::real<ret (*)(__VA_ARGS__)>(#name);

// =====================================================================================================================
// scheduler
// =====================================================================================================================
static void fwait(uint32_t* w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fwake(uint32_t* w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void record_switch(int tid, bool forced) {
    G.sched_hash = mix(G.sched_hash, (G.step << 9) ^ (uint64_t(tid) << 1) ^ forced);
    if (R->ntrace < MAX_TRACE) {
        R->trace[R->ntrace].step   = G.step;
        R->trace[R->ntrace].tid    = tid;
        R->trace[R->ntrace].forced = forced;
        ++R->ntrace;
    } else {
        R->trace_overflow = 1;
    }
    if (forced)
        ++R->forced;
    else
        ++R->switches;
}

static void set_budget() {
    switch (G.kind) {
        case SK_RANDOM:
        case SK_STALL: {
            // long runs are preempted less and less often
            const uint64_t f = 1 + (G.step >> 19);
            G.budget         = 1 + int64_t(sched_rand() % (2 * G.mean * f * f));
            break;
        }
        case SK_PCT: {
            uint64_t next = ~0ull;
            for (unsigned i = 0; i < G.npct; ++i)
                if (G.pct[i] > G.step && G.pct[i] < next) next = G.pct[i];
            G.budget = next == ~0ull ? int64_t(1) << 60 : int64_t(next - G.step);
            break;
        }
        case SK_EXPLICIT: {
            while (G.xi < G.nx && G.xs[G.xi].step <= G.step) ++G.xi;
            G.budget = G.xi < G.nx ? int64_t(G.xs[G.xi].step - G.step) : int64_t(1) << 60;
            break;
        }
        default: G.budget = int64_t(1) << 60;
    }
    G.base_step   = G.step;
    G.base_budget = G.budget;
}
static inline void sync_step() {  // fold the consumed budget into the step counter
    G.step += uint64_t(G.base_budget - G.budget);
    G.base_step   = G.step;
    G.base_budget = G.budget;
    if (G.step + G.serial_steps > G.step_limit)
        fail("no progress: exceeded the bound of %llu simulated steps", (unsigned long long)G.step_limit);
}

static Th* choose(bool allow_self, bool forced) {
    Th* run[MAX_T];
    int n = 0;
again:
    n = 0;
    for (int i = 0; i < G.ntid; ++i)
        if (G.th[i].state == TS_RUN && (allow_self || &G.th[i] != self)) run[n++] = &G.th[i];
    if (n == 0) {
        // nobody can run: fire the earliest timer
        Th* best = nullptr;
        for (int i = 0; i < G.ntid; ++i)
            if (G.th[i].state == TS_SLEEP && (!best || G.th[i].deadline < best->deadline)) best = &G.th[i];
        if (!best) {
            if (allow_self && self && self->state == TS_RUN) return self;
            return nullptr;
        }
        if (best->deadline > G.mono_ns) G.mono_ns = best->deadline;
        best->state = TS_RUN;
        if (best == self) return self;
        goto again;
    }
    if (G.kind == SK_EXPLICIT) {
        for (unsigned i = 0; i < G.nx; ++i)
            if (G.xs[i].step == G.step && G.xs[i].forced == forced) {
                for (int k = 0; k < n; ++k)
                    if (run[k]->tid == G.xs[i].tid) return run[k];
            }
        if (!forced && self && self->state == TS_RUN) return self;
        return run[0];
    }
    if (n == 1) return run[0];
    switch (G.kind) {
        case SK_PCT: {
            Th* b = run[0];
            for (int i = 1; i < n; ++i)
                if (run[i]->prio > b->prio) b = run[i];
            return b;
        }
        case SK_STALL: {
            Th* c[MAX_T];
            int m = 0;
            for (int i = 0; i < n; ++i)
                if (run[i]->tid != G.victim) c[m++] = run[i];
            if (m == 0) return run[0];
            if (m < n) ++G.stalls;
            return c[sched_rand() % m];
        }
        default: return run[sched_rand() % n];
    }
}

static void handoff(Th* n, bool exiting) {
    Th* me = self;
    G.cur  = n->tid;
    fwake(&n->futex);
    if (!exiting) fwait(&me->futex);
}

// voluntary scheduling point reached with the budget exhausted
void preempt() {
    sync_step();
    if (G.kind == SK_PCT) {
        for (unsigned i = 0; i < G.npct; ++i)
            if (G.pct[i] == G.step) self->prio = --G.low_prio;
    }
    Th* n = choose(true, false);
    if (n && n != self) {
        record_switch(n->tid, false);
        set_budget();
        handoff(n, false);
    } else {
        set_budget();
    }
}

// scheduling point at a synchronisation operation
static void sync_point() {
    if (!self || !G.multi) return;
    --G.budget;
    sync_step();
    bool hit = G.budget <= 0;
    if (!hit && (G.kind == SK_RANDOM || G.kind == SK_STALL)) hit = (sched_rand() & 3) == 0;
    if (!hit && G.kind == SK_SYNC) hit = true;
    if (hit) preempt();
}
void yield() {
    sync_point();
}

// current thread cannot continue: run somebody else
static void block_self(int state) {
    sync_step();
    self->state = state;
    ++G.step;
    Th* n = choose(false, true);
    if (!n) {
        if (self->state == TS_RUN) {
            set_budget();
            return;
        }
        fail("deadlock: no simulated thread can run (thread %d blocked, state %d)", self->tid, state);
    }
    if (n != self) {
        record_switch(n->tid, true);
        set_budget();
        handoff(n, false);
    } else {
        set_budget();
    }
}

// ------------------------------------------------------------------------------------------------ vector clocks
static inline void vc_join(uint32_t* a, const uint32_t* b) {
    for (int i = 0; i < MAX_T; ++i)
        if (b[i] > a[i]) a[i] = b[i];
}
static inline void tick(Th* t) {
    ++t->vc[t->tid];
}
struct SyncObj {
    uintptr_t key;
    uint32_t  vc[MAX_T];
    int       owner;  // tid or -1
    int       depth;
    uint32_t  waiters;
    uint32_t  seq;
};
static SyncObj** g_sync     = nullptr;
static size_t    g_sync_cap = 0, g_sync_n = 0;
static SyncObj*  sync_obj(const void* p, bool create = true) {
    uintptr_t k = (uintptr_t)p;
    if (!g_sync) {
        g_sync_cap = 1 << 12;
        g_sync     = (SyncObj**)calloc(g_sync_cap, sizeof *g_sync);
    }
    size_t i = splitmix(k) & (g_sync_cap - 1);
    while (g_sync[i] && g_sync[i]->key != k) i = (i + 1) & (g_sync_cap - 1);
    if (g_sync[i]) return g_sync[i];
    if (!create) return nullptr;
    if (g_sync_n * 2 > g_sync_cap) {
        size_t    oc  = g_sync_cap;
        SyncObj** old = g_sync;
        g_sync_cap *= 2;
        g_sync = (SyncObj**)calloc(g_sync_cap, sizeof *g_sync);
        for (size_t j = 0; j < oc; ++j)
            if (old[j]) {
                size_t q = splitmix(old[j]->key) & (g_sync_cap - 1);
                while (g_sync[q]) q = (q + 1) & (g_sync_cap - 1);
                g_sync[q] = old[j];
            }
        free(old);
        i = splitmix(k) & (g_sync_cap - 1);
        while (g_sync[i]) i = (i + 1) & (g_sync_cap - 1);
    }
    SyncObj* s = (SyncObj*)calloc(1, sizeof(SyncObj));
    s->key     = k;
    s->owner   = -1;
    g_sync[i]  = s;
    ++g_sync_n;
    return s;
}
static void acquire(SyncObj* s) {
    vc_join(self->vc, s->vc);
}
static void release(SyncObj* s) {
    vc_join(s->vc, self->vc);
    tick(self);
}

static void lock(const void* p, bool recursive = false) {
    SyncObj* s = sync_obj(p);
    sync_point();
    if (recursive && s->owner == self->tid) {
        ++s->depth;
        return;
    }
    while (s->owner != -1) {
        if (s->owner == self->tid && !recursive) fail("deadlock: thread %d locks a lock it already holds", self->tid);
        self->wait_on = s;
        ++R->contended;
        block_self(TS_BLOCK);
    }
    s->owner = self->tid;
    s->depth = 1;
    acquire(s);
}
static bool trylock(const void* p, bool recursive = false) {
    SyncObj* s = sync_obj(p);
    sync_point();
    if (recursive && s->owner == self->tid) {
        ++s->depth;
        return true;
    }
    if (s->owner != -1) return false;
    s->owner = self->tid;
    s->depth = 1;
    acquire(s);
    return true;
}
static void wake_waiters(SyncObj* s) {
    for (int i = 0; i < G.ntid; ++i)
        if ((G.th[i].state == TS_BLOCK || G.th[i].state == TS_SLEEP) && G.th[i].wait_on == s) {
            G.th[i].state   = TS_RUN;
            G.th[i].wait_on = nullptr;
        }
}
static void unlock(const void* p) {
    SyncObj* s = sync_obj(p);
    if (--s->depth > 0) return;
    release(s);
    s->owner = -1;
    wake_waiters(s);
    sync_point();
}

// ------------------------------------------------------------------------------------------------ thread lifecycle
static void* thread_main(void* arg) {
    Th* t = (Th*)arg;
    self  = t;
    stack_t ss;
    ss.ss_sp    = t->altstack;
    ss.ss_size  = ALT_STACK;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    fwait(&t->futex);
    void* rv = nullptr;
    if (t->pfn)
        rv = t->pfn(t->parg);
    else
        t->body();
    t->retval = rv;
    // thread_local destructors run after this point in the OS thread but outside the schedule; force them first by
    // leaving the schedule only from the TLS key destructor (registered below) -- see exit_key.
    pthread_setspecific(G.exit_key, t);
    return rv;
}
// runs after C++ thread_local destructors (those run first, through __call_tls_dtors)
static void thread_exit(void* arg) {
    Th* t = (Th*)arg;
    self  = t;
    sync_step();
    tick(t);
    t->state = TS_DONE;
    for (int i = 0; i < G.ntid; ++i)
        if (G.th[i].state == TS_BLOCK && G.th[i].wait_thread == t) {
            G.th[i].state       = TS_RUN;
            G.th[i].wait_thread = nullptr;
        }
    ++G.step;
    Th* n = choose(false, true);
    if (!n) {
        if (t->tid == 0) leave(ST_OK);
        fail("deadlock: last runnable thread exited while others wait");
    }
    record_switch(n->tid, true);
    set_budget();
    self = nullptr;
    handoff(n, true);
}

static void forget_accesses(uintptr_t from, size_t n);
static Th* create_thread(uint64_t stream) {
    int tid = -1;
    for (int i = 1; i < G.ntid; ++i)
        if (G.th[i].state == TS_FREE) {
            tid = i;
            break;
        }
    if (tid < 0) {
        if (G.ntid >= MAX_T) harness_error("too many simulated threads");
        tid = G.ntid++;
    }
    Th*      t   = &G.th[tid];
    uint32_t clk = t->vc[tid];
    void*    stk = t->stack;
    void*    alt = t->altstack;
    memset((void*)t, 0, sizeof *t);
    t->stack    = stk;
    t->altstack = alt;
    t->tid      = tid;
    if (!t->stack) {
        t->stack = mmap((void*)(STACK_BASE + uintptr_t(tid) * STACK_STRIDE), STACK_SIZE, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (t->stack == MAP_FAILED) harness_error("stack mmap: %s", strerror(errno));
        t->altstack = malloc(ALT_STACK);
    } else if (G.multi) {
        forget_accesses((uintptr_t)t->stack, STACK_SIZE);  // a new thread's stack is new memory
    }
    if (self) {
        vc_join(t->vc, self->vc);
        tick(self);
    }
    if (t->vc[tid] < clk) t->vc[tid] = clk;
    ++t->vc[tid];
    t->stream = stream;
    t->prio   = 1000 + int64_t(sched_rand() % 1000000);
    t->state  = TS_RUN;
    if (self) {
        if (G.live == 0) {  // first unjoined child: everything before happens-before everything after
            ++G.gen;
            G.multi = true;
            set_budget();
        }
        ++G.live;
        if (G.live + 1 > G.max_live) G.max_live = G.live + 1;
    }
    return t;
}
static void start_os_thread(Th* t) {
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, t->stack, STACK_SIZE);
    int e = real_pthread_create(&t->os, &a, thread_main, t);
    pthread_attr_destroy(&a);
    if (e) harness_error("pthread_create: %s", strerror(e));
}
static void join_thread(Th* t) {
    REAL(int, pthread_join, pthread_t, void**);
    while (t->state != TS_DONE) {
        self->wait_thread = t;
        block_self(TS_BLOCK);
    }
    vc_join(self->vc, t->vc);
    real_pthread_join(t->os, nullptr);
    t->state = TS_FREE;
    if (--G.live == 0) {
        sync_step();
        G.multi = false;
    }
}
static uint64_t child_stream() {
    return splitmix(self->stream ^ splitmix(0xC0FFEE + (++self->nchildren)));
}

void concurrently(const std::vector<std::function<void()>>& jobs, uint64_t stream) {
    std::vector<Th*> ts;
    ts.reserve(jobs.size());
    for (size_t i = 0; i < jobs.size(); ++i) {
        Th* t  = create_thread(splitmix(stream ^ splitmix(i + 1)));
        t->fn  = &jobs[i];
        t->body = [](){ (*self->fn)(); };
        ts.push_back(t);
    }
    for (Th* t : ts) start_os_thread(t);
    for (Th* t : ts) join_thread(t);
}
void fresh(uint64_t stream, const std::function<void()>& job, unsigned position) {
    Th* t   = create_thread(splitmix(stream ^ splitmix(position + 1)));
    t->fn   = &job;
    t->body = [](){ (*self->fn)(); };
    start_os_thread(t);
    join_thread(t);
}
void set_team(unsigned n) {
    G.team = n;
}
unsigned self_id() {
    return self ? self->tid : 0;
}
void set_step_limit(uint64_t n) {
    sync_step();
    G.step_limit = G.step + G.serial_steps + n;
}

// =====================================================================================================================
// memory accesses: addressability, happens-before races, preemption
// =====================================================================================================================
struct Rec {
    uint32_t clk;
    uint16_t gen;
    uint8_t  tid;
    uint8_t  mask;
    uint32_t pc;
    uint8_t  flags;  // 1 write, 2 atomic
    uint8_t  pad[3];
};
struct Gran {
    Rec r[4];
};
struct ShPage {
    uintptr_t page;
    Gran      g[512];
};
static ShPage** g_pages    = nullptr;
static size_t   g_page_cap = 0, g_page_n = 0;
static ShPage*  g_last = nullptr;
static ShPage*  page_of(uintptr_t pg) {
    if (g_last && g_last->page == pg) return g_last;
    if (!g_pages) {
        g_page_cap = 1 << 14;
        g_pages    = (ShPage**)calloc(g_page_cap, sizeof *g_pages);
    }
    size_t i = splitmix(pg) & (g_page_cap - 1);
    while (g_pages[i] && g_pages[i]->page != pg) i = (i + 1) & (g_page_cap - 1);
    if (!g_pages[i]) {
        if (g_page_n * 2 > g_page_cap) {
            size_t   oc  = g_page_cap;
            ShPage** old = g_pages;
            g_page_cap *= 2;
            g_pages = (ShPage**)calloc(g_page_cap, sizeof *g_pages);
            for (size_t j = 0; j < oc; ++j)
                if (old[j]) {
                    size_t q = splitmix(old[j]->page) & (g_page_cap - 1);
                    while (g_pages[q]) q = (q + 1) & (g_page_cap - 1);
                    g_pages[q] = old[j];
                }
            free(old);
            i = splitmix(pg) & (g_page_cap - 1);
            while (g_pages[i]) i = (i + 1) & (g_page_cap - 1);
        }
        g_pages[i]       = (ShPage*)calloc(1, sizeof(ShPage));
        g_pages[i]->page = pg;
        ++g_page_n;
    }
    return g_last = g_pages[i];
}

static void forget_accesses(uintptr_t from, size_t n) {
    for (size_t i = 0; i < g_page_cap; ++i)
        if (g_pages[i] && (g_pages[i]->page << 12) >= from && (g_pages[i]->page << 12) < from + n)
            memset(g_pages[i]->g, 0, sizeof g_pages[i]->g);
}
static void race(uintptr_t a, unsigned size, unsigned flags, const void* pc, const Rec& r) {
    R->pc[0] = (uintptr_t)pc;
    R->pc[1] = r.pc;
    R->npc   = 2;
    char where[96] = "";
    if (a >= ARENA_BASE && a < ARENA_BASE + ARENA_SIZE) {
        const BlockHdr* h = block_of(a);
        if (h) snprintf(where, sizeof where, " (heap block #%u of %llu bytes, offset %lld)", h->seq,
                        (unsigned long long)h->size, (long long)(a - (uintptr_t)(h + 1)));
    }
    fail("data race: %s%s of %u byte(s) by thread %d conflicts with unordered %s%s by thread %d%s [pc %p | pc %p]",
         flags & 2 ? "atomic " : "", flags & 1 ? "write" : "read", size, self->tid, r.flags & 2 ? "atomic " : "",
         r.flags & 1 ? "write" : "read", r.tid, where, pc, (void*)(uintptr_t)r.pc);
}

static inline void race_check(uintptr_t a, unsigned size, unsigned flags, const void* pc) {
    // stack-private accesses of the running thread cannot race unless published; they are still recorded because the
    // parallel regions of FFCL share the caller's stack by reference.
    while (size) {
        unsigned off  = a & 7;
        unsigned n    = 8 - off < size ? 8 - off : size;
        uint8_t  mask = uint8_t(((1u << n) - 1) << off);
        Gran&    g    = page_of(a >> 12)->g[(a & 4095) >> 3];
        int      slot = -1, empty = -1, old = -1;
        for (int i = 0; i < 4; ++i) {
            Rec& r = g.r[i];
            if (r.gen != G.gen) {
                empty = i;
                continue;
            }
            if (r.tid == self->tid) {
                if (r.flags == flags && r.mask == mask) slot = i;
                if (slot < 0 && (r.mask & ~mask) == 0 && (r.flags & ~flags) == 0) slot = i;
                continue;
            }
            bool hb = r.clk <= self->vc[r.tid];
            if (hb) {
                if ((flags & 1) || !(r.flags & 1)) old = i;
                continue;
            }
            if ((r.mask & mask) && ((r.flags | flags) & 1) && !((r.flags & 2) && (flags & 2)))
                race(a, n, flags, pc, r);
        }
        if (slot < 0) slot = empty;
        if (slot < 0) slot = old;
        if (slot < 0) slot = (G.evict++) & 3;
        Rec& r  = g.r[slot];
        r.clk   = self->vc[self->tid];
        r.gen   = uint16_t(G.gen);
        r.tid   = uint8_t(self->tid);
        r.mask  = mask;
        r.flags = uint8_t(flags);
        r.pc    = uint32_t((uintptr_t)pc);
        a += n;
        size -= n;
    }
}

static void bad_access(uintptr_t a, size_t size, unsigned flags, const void* pc) {
    R->pc[0]              = (uintptr_t)pc;
    R->npc                = 1;
    const BlockHdr* h     = block_of(a);
    char            w[128] = "outside any block";
    if (h) {
        if (h->magic == MAGIC_FREE)
            snprintf(w, sizeof w, "inside freed block #%u of %llu bytes", h->seq, (unsigned long long)h->size);
        else
            snprintf(w, sizeof w, "%lld bytes into block #%u of %llu bytes", (long long)(a - (uintptr_t)(h + 1)), h->seq,
                     (unsigned long long)h->size);
    }
    fail("invalid heap access: %s of %zu byte(s) %s [pc %p]", flags & 1 ? "write" : "read", size, w, pc);
}
static inline void addressable(uintptr_t a, size_t size, unsigned flags, const void* pc) {
    if (a - ARENA_BASE >= ARENA_SIZE || size == 0) return;
    const uint8_t* s    = G.addr + ((a - ARENA_BASE) >> 3);
    uintptr_t      last = a + size - 1;
    const uint8_t* e    = G.addr + ((last - ARENA_BASE) >> 3);
    for (; s < e; ++s)
        if (*s != 8) bad_access(a, size, flags, pc);
    if (*e <= (last & 7)) bad_access(a, size, flags, pc);
}

__attribute__((noinline)) static void serial_overrun() {
    if (G.step + G.serial_steps > G.step_limit)
        fail("no progress: exceeded the bound of %llu simulated steps", (unsigned long long)G.step_limit);
}
static inline void access(uintptr_t a, size_t size, unsigned flags, const void* pc) {
    addressable(a, size, flags, pc);
    if (!G.multi) {
        if ((++G.serial_steps & 0xfff) == 0) {
            G.mono_ns += 0x1000 * NS_PER_STEP;
            serial_overrun();
        }
        return;
    }
    if (!self) return;
    ++G.accesses;
    G.mono_ns += NS_PER_STEP;
    race_check(a, unsigned(size), flags, pc);
    if (--G.budget <= 0) preempt();
}
static void access_range(const void* p, size_t n, unsigned flags, const void* pc) {
    if (!n) return;
    addressable((uintptr_t)p, n, flags, pc);
    if (!G.multi) {
        ++G.serial_steps;
        return;
    }
    if (!self) return;
    if (n <= 1 << 16) race_check((uintptr_t)p, unsigned(n), flags, pc);
    if (--G.budget <= 0) preempt();
}

// =====================================================================================================================
// heap
// =====================================================================================================================
const BlockHdr* block_of(uintptr_t a) {
    // walk back over the arena to the closest header (error path only)
    uintptr_t lo = a - ARENA_BASE > (1u << 20) ? a - (1u << 20) : ARENA_BASE;
    for (uintptr_t p = a & ~uintptr_t(15); p >= lo + sizeof(BlockHdr); p -= 16) {
        if (p + 16 > (uintptr_t)G.bump) continue;
        const BlockHdr* h = (const BlockHdr*)(p - sizeof(BlockHdr));
        if ((h->magic == MAGIC_LIVE || h->magic == MAGIC_FREE) && h->self == p) return h;
    }
    return nullptr;
}
static void arena_init() {
    void* p = mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* q = mmap((void*)ADDR_BASE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ARENA_BASE || q != (void*)ADDR_BASE) {
        dprintf(2, "sim: cannot map the arena\n");
        _exit(3);
    }
    G.bump = (char*)p;
    G.addr = (uint8_t*)q;
}
// In some runs freed memory is handed out again as soon as possible, like real allocators do: the same addresses come
// back for other objects.  In the other runs an address is never used twice, so that every stale pointer is noticed.
static constexpr size_t REUSE_CLASSES = 4096;
static uintptr_t        g_free_list[REUSE_CLASSES];
static void forget_block(uintptr_t a, size_t n) {
    for (uintptr_t p = a & ~uintptr_t(7); p < a + n; p += 8) memset(&page_of(p >> 12)->g[(p & 4095) >> 3], 0, sizeof(Gran));
}
static void* heap_alloc(size_t n, size_t align) {
    if (!G.bump) arena_init();
    if (align < 16) align = 16;
    const size_t cls = (n + 15) >> 4;
    uintptr_t at = ((uintptr_t)G.bump + sizeof(BlockHdr) + align - 1) & ~(uintptr_t)(align - 1);
    uintptr_t end = (at + n + 16 + 15) & ~uintptr_t(15);
    if (G.reuse && align == 16 && cls < REUSE_CLASSES && g_free_list[cls]) {
        at               = g_free_list[cls];
        g_free_list[cls] = ((BlockHdr*)at - 1)->tag;
        end              = (uintptr_t)G.bump;
        if (G.multi) forget_block(at, n);
        ++G.reused;
    }
    if (end > ARENA_BASE + ARENA_SIZE - 4096) {
        if (R && G.in_run && G.heap.st.live_bytes > ARENA_SIZE / 2) fail("memory keeps growing: more than %llu MB are held at once", (unsigned long long)(ARENA_SIZE >> 21));
        if (R && G.in_run) discard("arena exhausted");
        _exit(3);
    }
    BlockHdr* h = (BlockHdr*)at - 1;
    h->size     = n;
    h->seq      = ++G.heap.seq;
    h->magic    = MAGIC_LIVE;
    h->self     = at;
    h->tag      = G.heap.pause ? 1 : 0;
    G.bump      = (char*)end;
    if (n) {
        memset((void*)at, int(G.heap.garbage), n);
        uint8_t* s = G.addr + ((at - ARENA_BASE) >> 3);
        memset(s, 8, n >> 3);
        if (n & 7) s[n >> 3] = uint8_t(n & 7);
    }
    memset((void*)(at + n), 0xFB, 16);
    if (!h->tag) {
        ++G.heap.st.allocs;
        ++G.heap.st.live_blocks;
        G.heap.st.live_bytes += n;
        G.heap.st.total_bytes += n;
    }
    return (void*)at;
}
static void heap_free(void* p) {
    if (!p) return;
    uintptr_t a = (uintptr_t)p;
    if (a - ARENA_BASE >= ARENA_SIZE) fail("free of a pointer that was never allocated: %p", p);
    BlockHdr* h = (BlockHdr*)p - 1;
    if (h->magic == MAGIC_FREE) fail("double free of heap block #%u of %llu bytes", h->seq, (unsigned long long)h->size);
    if (h->magic != MAGIC_LIVE || h->self != a) fail("free of a pointer that is not the start of a heap block: %p", p);
    const unsigned char* z = (unsigned char*)p + h->size;
    for (int i = 0; i < 16; ++i)
        if (z[i] != 0xFB) fail("heap overflow: bytes after block #%u of %llu bytes were overwritten", h->seq,
                               (unsigned long long)h->size);
    if (G.multi && self && h->size && h->size <= 1 << 16)
        race_check(a, unsigned(h->size), 1, __builtin_return_address(0));
    h->magic = MAGIC_FREE;
    memset(p, 0xDD, h->size);
    memset(G.addr + ((a - ARENA_BASE) >> 3), 0, (h->size + 7) >> 3);
    if (!h->tag) {
        ++G.heap.st.frees;
        --G.heap.st.live_blocks;
        G.heap.st.live_bytes -= h->size;
    }
    const size_t cls = (h->size + 15) >> 4;
    if (G.reuse && cls < REUSE_CLASSES) {
        h->tag           = g_free_list[cls];
        g_free_list[cls] = a;
    }
}
static bool heap_should_fail(size_t n) {
    if (n > ARENA_SIZE / 2) return true;  // a request no input of this size can justify
    if (!G.in_run || G.heap.pause) return false;
    if (G.heap.counting) ++G.heap.count;
    if (G.heap.fail_size && n >= G.heap.fail_size) {
        ++G.heap.failed;
        return true;
    }
    if (G.heap.fail_at) {
        if (G.heap.fail_at == 1) {
            ++G.heap.failed;
            if (!G.heap.sticky) G.heap.fail_at = 0;
            return true;
        }
        --G.heap.fail_at;
    }
    return false;
}
HeapStats heap_stats() {
    return G.heap.st;
}
void heap_fail(uint64_t at, bool sticky) {
    G.heap.fail_at = at;
    G.heap.sticky  = sticky;
    G.heap.failed  = 0;
}
void heap_fail_size(uint64_t b) {
    G.heap.fail_size = b;
    G.heap.failed    = 0;
}
uint64_t heap_heal() {
    G.heap.fail_at   = 0;
    G.heap.fail_size = 0;
    uint64_t f       = G.heap.failed;
    G.heap.failed    = 0;
    if (f) count_fault("alloc_failure", f);
    return f;
}
uint64_t heap_count_begin() {
    G.heap.counting = true;
    return G.heap.count = 0;
}
uint64_t heap_count_end() {
    G.heap.counting = false;
    return G.heap.count;
}
void heap_garbage(unsigned p) {
    G.heap.garbage = p & 0xff;
}
void heap_pause(bool on) {
    G.heap.pause += on ? 1 : -1;
}

// =====================================================================================================================
// entropy
// =====================================================================================================================
void set_entropy(int m) {
    G.entropy = m;
}
void set_words(uint64_t salt) {
    G.words = salt;
}
uint64_t words() {
    return G.words;
}
uint32_t generator_word(uint32_t w) {
    if (!G.words) return w;
    const uint64_t h = splitmix(G.words ^ splitmix(w));
    if (h % 6) return w;
    static const uint32_t extreme[] = {0u, 0u, 0xffffffffu, 0xffffffffu, 1u, 0xfffffffeu, 0x80000000u, 0x7fffffffu};
    count_fault("generator_extreme");
    return extreme[(h >> 32) % 8];
}
static uint32_t entropy_draw() {
    uint64_t v = self ? splitmix(self->stream ^ splitmix(++self->draws)) : splitmix(++G.parent_draws);
    if (G.in_run) ++R->entropy_draws;
    switch (G.entropy) {
        case ENTROPY_LOW: count_fault("entropy_low"); return uint32_t(v & 3);
        case ENTROPY_ZERO: count_fault("entropy_stuck"); return 0;
        case ENTROPY_ONES: count_fault("entropy_stuck"); return 0xffffffffu;
        default: return uint32_t(v);
    }
}

// =====================================================================================================================
// clocks
// =====================================================================================================================
uint64_t mono_now() {
    return G.mono_ns;
}
void wall_jump(int64_t ns) {
    G.wall_off += ns;
    count_fault(ns < 0 ? "clock_jump_back" : "clock_jump_forward");
}
void time_pass(uint64_t ns) {
    G.mono_ns += ns;
    G.wall_off += int64_t(double(ns) * double(G.wall_skew) * 1e-6);
}
void sleep_fault(unsigned k) {
    G.sleep_eintr = k;
}
void set_clock_rate_ppm(int64_t ppm) {
    G.wall_skew = ppm;
}
static uint64_t wall_now() {
    return uint64_t(int64_t(G.mono_ns) + WALL_BASE + G.wall_off);
}
static int sim_sleep(uint64_t ns, struct timespec* rem) {
    bool intr = false;
    if (G.sleep_eintr) {
        --G.sleep_eintr;
        intr = true;
        count_fault("sleep_eintr");
    }
    uint64_t d = intr ? ns / 3 : ns;
    if (self && G.multi) {
        self->deadline = G.mono_ns + d;
        self->wait_on  = nullptr;
        block_self(TS_SLEEP);
    } else {
        time_pass(d);
    }
    ++R->sleeps;
    if (intr) {
        if (rem) {
            rem->tv_sec  = (ns - d) / 1000000000ull;
            rem->tv_nsec = (ns - d) % 1000000000ull;
        }
        errno = EINTR;
        return -1;
    }
    return 0;
}

// =====================================================================================================================
// disk
// =====================================================================================================================
static DiskPlan  g_plan;
static bool      g_plan_on = false;
static DiskStats g_disk;
static struct {
    int      fd;
    uint64_t off;
} g_fds[16];
static unsigned g_nfds = 0;
void disk_plan(const DiskPlan& p) {
    g_plan    = p;
    g_plan_on = true;
}
void disk_clear() {
    g_plan_on = false;
    g_plan    = DiskPlan();
}
const char* scratch() {
    return G.scratch;
}
DiskStats disk_stats() {
    return g_disk;
}
static int fd_slot(int fd) {
    for (unsigned i = 0; i < g_nfds; ++i)
        if (g_fds[i].fd == fd) return int(i);
    return -1;
}
static bool tracked_path(const char* p) {
    return G.in_run && G.scratch[0] && p && !strncmp(p, G.scratch, strlen(G.scratch));
}
static void track(int fd) {
    if (fd < 0 || g_nfds >= 16) return;
    g_fds[g_nfds].fd  = fd;
    g_fds[g_nfds].off = 0;
    ++g_nfds;
    ++g_disk.opens;
}
static void untrack(int i) {
    g_fds[i] = g_fds[--g_nfds];
    ++g_disk.closes;
}
static bool open_denied(const char* p) {
    if (!tracked_path(p) || !g_plan_on || !g_plan.open_fails) return false;
    count_fault("disk_open_error");
    ++g_disk.faults;
    errno = ENOSPC;
    return true;
}
static ssize_t sim_write(int fd, const void* buf, size_t n) {
    int i = fd_slot(fd);
    if (i < 0 || !g_plan_on) return syscall(SYS_write, fd, buf, n);
    ++g_disk.writes;
    uint64_t& off = g_fds[i].off;
    if (g_plan.eintr_every && g_disk.writes % g_plan.eintr_every == 0) {
        count_fault("disk_eintr");
        ++g_disk.faults;
        errno = EINTR;
        return -1;
    }
    if (off >= g_plan.enospc_at && n) {
        count_fault("disk_enospc");
        ++g_disk.faults;
        errno = ENOSPC;
        return -1;
    }
    if (n && off <= g_plan.eio_at && g_plan.eio_at < off + n) {
        if (g_plan.eio_at == off) {
            count_fault("disk_eio");
            ++g_disk.faults;
            g_plan.eio_at = ~0ull;
            errno         = EIO;
            return -1;
        }
        n = g_plan.eio_at - off;
        count_fault("disk_short_write");
    }
    if (off + n > g_plan.enospc_at) {
        n = g_plan.enospc_at - off;
        count_fault("disk_short_write");
    }
    if (g_plan.short_mod && n > g_plan.short_mod) {
        n = g_plan.short_mod;
        count_fault("disk_short_write");
    }
    ssize_t w = syscall(SYS_write, fd, buf, n);
    if (w > 0) {
        off += w;
        g_disk.bytes += w;
    }
    return w;
}
static int before_close(int fd, bool* fails) {
    int i = fd_slot(fd);
    if (i >= 0 && g_plan_on && g_plan.close_fails) {
        *fails = true;
        count_fault("disk_close_error");
        ++g_disk.faults;
        if (g_plan.lost_from < g_fds[i].off) {
            count_fault("disk_lost_write");
            if (ftruncate(fd, off_t(g_plan.lost_from)) != 0) { /* scratch file */
            }
        }
    }
    return i;
}

}  // namespace sim

using namespace sim;

// =====================================================================================================================
// interposed C / C++ runtime
// =====================================================================================================================
void* operator new(size_t n) {
    if (heap_should_fail(n)) throw std::bad_alloc();
    return heap_alloc(n, 16);
}
void* operator new[](size_t n) {
    if (heap_should_fail(n)) throw std::bad_alloc();
    return heap_alloc(n, 16);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept {
    if (heap_should_fail(n)) return nullptr;
    return heap_alloc(n, 16);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
    if (heap_should_fail(n)) return nullptr;
    return heap_alloc(n, 16);
}
void* operator new(size_t n, std::align_val_t a) {
    if (heap_should_fail(n)) throw std::bad_alloc();
    return heap_alloc(n, size_t(a));
}
void* operator new[](size_t n, std::align_val_t a) {
    if (heap_should_fail(n)) throw std::bad_alloc();
    return heap_alloc(n, size_t(a));
}
void operator delete(void* p) noexcept { heap_free(p); }
void operator delete[](void* p) noexcept { heap_free(p); }
void operator delete(void* p, size_t) noexcept { heap_free(p); }
void operator delete[](void* p, size_t) noexcept { heap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap_free(p); }

extern "C" {

unsigned int _ZNSt13random_device9_M_getvalEv(void*) { return entropy_draw(); }
ssize_t getrandom(void* b, size_t n, unsigned) {
    for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)entropy_draw();
    return ssize_t(n);
}
int getentropy(void* b, size_t n) {
    getrandom(b, n, 0);
    return 0;
}

int clock_gettime(clockid_t c, struct timespec* t) {
    if (!G.in_run) return (int)syscall(SYS_clock_gettime, c, t);
    uint64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? wall_now() : G.mono_ns;
    ++R->clock_reads;
    G.mono_ns += 20;
    t->tv_sec  = v / 1000000000ull;
    t->tv_nsec = v % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval* t, void*) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    t->tv_sec  = ts.tv_sec;
    t->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock(void) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return clock_t(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}
long long _ZNSt6chrono3_V212system_clock3nowEv(void) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
long long _ZNSt6chrono3_V212steady_clock3nowEv(void) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
int nanosleep(const struct timespec* q, struct timespec* rem) {
    if (!G.in_run || !self) return (int)syscall(SYS_nanosleep, q, rem);
    return sim_sleep(uint64_t(q->tv_sec) * 1000000000ull + uint64_t(q->tv_nsec), rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* q, struct timespec* rem) {
    uint64_t v = uint64_t(q->tv_sec) * 1000000000ull + uint64_t(q->tv_nsec);
    if (flags & TIMER_ABSTIME) {
        uint64_t now = c == CLOCK_REALTIME ? wall_now() : G.mono_ns;
        v            = v > now ? v - now : 0;
    }
    return sim_sleep(v, rem) ? EINTR : 0;
}
int usleep(useconds_t u) { return sim_sleep(uint64_t(u) * 1000, nullptr); }
unsigned sleep(unsigned s) {
    sim_sleep(uint64_t(s) * 1000000000ull, nullptr);
    return 0;
}
int sched_yield(void) {
    sim::yield();
    return 0;
}

// ------------------------------------------------------------------------------------------------ files
FILE* fopen(const char* p, const char* m) {
    REAL(FILE*, fopen, const char*, const char*);
    if (open_denied(p)) return nullptr;
    FILE* f = real_fopen(p, m);
    if (f && tracked_path(p)) track(fileno(f));
    return f;
}
FILE* fopen64(const char* p, const char* m) {
    REAL(FILE*, fopen64, const char*, const char*);
    if (open_denied(p)) return nullptr;
    FILE* f = real_fopen64(p, m);
    if (f && tracked_path(p)) track(fileno(f));
    return f;
}
int open(const char* p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0;
    va_end(ap);
    if (open_denied(p)) return -1;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
    if (fd >= 0 && tracked_path(p)) track(fd);
    return fd;
}
int open64(const char* p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0;
    va_end(ap);
    return open(p, fl, mode);
}
ssize_t write(int fd, const void* b, size_t n) { return sim_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (fd_slot(fd) < 0 || !g_plan_on) return syscall(SYS_writev, fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) {
        if (!v[i].iov_len) continue;
        ssize_t w = sim_write(fd, v[i].iov_base, v[i].iov_len);
        if (w < 0) return tot ? tot : w;
        tot += w;
        if (size_t(w) < v[i].iov_len) break;
    }
    return tot;
}
int fclose(FILE* f) {
    REAL(int, fclose, FILE*);
    bool fails = false;
    int  i     = before_close(fileno(f), &fails);
    int  r     = real_fclose(f);
    if (i >= 0) untrack(i);
    if (fails) {
        errno = EIO;
        return EOF;
    }
    return r;
}
int close(int fd) {
    bool fails = false;
    int  i     = before_close(fd, &fails);
    int  r     = (int)syscall(SYS_close, fd);
    if (i >= 0) untrack(i);
    if (fails) {
        errno = EIO;
        return -1;
    }
    return r;
}
int fsync(int fd) {
    int i = fd_slot(fd);
    if (i >= 0 && g_plan_on && g_plan.close_fails) {
        errno = EIO;
        return -1;
    }
    return (int)syscall(SYS_fsync, fd);
}

// ------------------------------------------------------------------------------------------------ pthreads
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    if (!self) return real_pthread_create(out, at, fn, arg);
    Th* t    = create_thread(child_stream());
    t->pfn   = fn;
    t->parg  = arg;
    start_os_thread(t);
    *out = t->os;
    sync_point();
    return 0;
}
static Th* th_of(pthread_t p) {
    for (int i = 0; i < G.ntid; ++i)
        if (G.th[i].state != TS_FREE && pthread_equal(G.th[i].os, p)) return &G.th[i];
    return nullptr;
}
int pthread_join(pthread_t p, void** rv) {
    REAL(int, pthread_join, pthread_t, void**);
    Th* t = self ? th_of(p) : nullptr;
    if (!t) return real_pthread_join(p, rv);
    void* r;
    while (t->state != TS_DONE) {
        self->wait_thread = t;
        block_self(TS_BLOCK);
    }
    r = t->retval;
    join_thread(t);
    if (rv) *rv = r;
    return 0;
}
int pthread_detach(pthread_t p) {
    REAL(int, pthread_detach, pthread_t);
    if (self && th_of(p)) return 0;  // stays accounted until the end of the run
    return real_pthread_detach(p);
}
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_lock, pthread_mutex_t*);
    if (!self) return real_pthread_mutex_lock(m);
    sim::lock(m, is_recursive(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    if (!self) return real_pthread_mutex_trylock(m);
    return sim::trylock(m, is_recursive(m)) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    if (!self) return real_pthread_mutex_unlock(m);
    sim::unlock(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
    if (!self) return real_pthread_rwlock_rdlock(m);
    sim::lock(m);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
    if (!self) return real_pthread_rwlock_wrlock(m);
    sim::lock(m);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
    if (!self) return real_pthread_rwlock_unlock(m);
    sim::unlock(m);
    return 0;
}
static int cond_wait_until(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
    SyncObj* s = sync_obj(c);
    SyncObj* l = sync_obj(m);
    release(l);
    l->owner = -1;
    l->depth = 0;
    wake_waiters(l);
    self->wait_on = s;
    uint32_t seq  = s->seq;
    if (deadline) {
        self->deadline = deadline;
        block_self(TS_SLEEP);
    } else {
        block_self(TS_BLOCK);
    }
    bool timed = deadline && s->seq == seq;
    self->wait_on = nullptr;
    acquire(s);
    sim::lock(m);
    return timed ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
    if (!self) return real_pthread_cond_wait(c, m);
    return cond_wait_until(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    if (!self) return real_pthread_cond_timedwait(c, m, t);
    uint64_t v = uint64_t(t->tv_sec) * 1000000000ull + uint64_t(t->tv_nsec), w = wall_now();
    return cond_wait_until(c, m, G.mono_ns + (v > w ? v - w : 1));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    uint64_t v = uint64_t(t->tv_sec) * 1000000000ull + uint64_t(t->tv_nsec);
    uint64_t w = k == CLOCK_REALTIME ? wall_now() : G.mono_ns;
    return cond_wait_until(c, m, G.mono_ns + (v > w ? v - w : 1));
}
int pthread_cond_signal(pthread_cond_t* c) {
    REAL(int, pthread_cond_signal, pthread_cond_t*);
    if (!self) return real_pthread_cond_signal(c);
    SyncObj* s = sync_obj(c);
    release(s);
    ++s->seq;
    wake_waiters(s);  // spurious wake-ups of the other waiters are legal
    sync_point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    REAL(int, pthread_cond_broadcast, pthread_cond_t*);
    if (!self) return real_pthread_cond_broadcast(c);
    return pthread_cond_signal(c);
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!self) {
        REAL(int, pthread_once, pthread_once_t*, void (*)(void));
        return real_pthread_once(o, f);
    }
    sim::lock(o);
    SyncObj* s = sync_obj((char*)o + 1);
    if (!s->seq) {
        f();
        s->seq = 1;
    }
    sim::unlock(o);
    return 0;
}
// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
    if (!self) return *(unsigned char*)g ? 0 : 1;
    if (*(unsigned char*)g) {
        acquire(sync_obj(g));
        return 0;
    }
    sim::lock(g, true);
    if (*(unsigned char*)g) {
        sim::unlock(g);
        return 0;
    }
    return 1;
}
void __cxa_guard_release(uint64_t* g) {
    *(unsigned char*)g = 1;
    if (self) sim::unlock(g);
}
void __cxa_guard_abort(uint64_t* g) {
    if (self) sim::unlock(g);
}
// std::future & friends park on a futex inside libstdc++: turn the wait into scheduling points
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* a, unsigned v, bool, long, long) {
    for (int i = 0; i < 1000000 && __atomic_load_n(a, __ATOMIC_ACQUIRE) == v; ++i) {
        if (!self || !G.multi) break;
        self->deadline = G.mono_ns + 1000;
        self->wait_on  = nullptr;
        block_self(TS_SLEEP);
    }
    return true;
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void* t, unsigned* a, unsigned v, bool h, long s, long n) {
    return _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
        t, a, v, h, s, n);
}

// ------------------------------------------------------------------------------------------------ OpenMP (libgomp ABI)
typedef unsigned long long ull;
struct WS {
    bool     init, isull, up;
    long     next, end, incr, chunk;
    ull      unext, uend, uincr, uchunk;
    int      sched;
    unsigned arrived, left;
    unsigned sections, snext;
    bool     single_taken;
    void*    copy;
};
struct Team {
    unsigned n;
    Th*      members[MAX_T];
    WS       ws[64];
    unsigned nws;
    unsigned bar_in, bar_gen;
    uint32_t bar_vc[MAX_T];
    uint32_t bar_out[MAX_T];
    void (*fn)(void*);
    void* data;
    Team* outer;
    int   outer_num;
    unsigned level;
    // ordered
    long ord_next;
};
static Team* cur_team() { return self ? (Team*)self->team : nullptr; }

static void barrier(Team* t) {
    if (!t || t->n == 1) return;
    sync_point();
    vc_join(t->bar_vc, self->vc);
    tick(self);
    unsigned gen = t->bar_gen;
    if (++t->bar_in == t->n) {
        t->bar_in = 0;
        ++t->bar_gen;
        memcpy(t->bar_out, t->bar_vc, sizeof t->bar_out);
        memset(t->bar_vc, 0, sizeof t->bar_vc);
        wake_waiters((SyncObj*)t);
    } else {
        while (t->bar_gen == gen) {
            self->wait_on = (SyncObj*)t;
            block_self(TS_BLOCK);
        }
    }
    vc_join(self->vc, t->bar_out);
}
static void team_body() {
    Team* t = (Team*)self->team;
    t->fn(t->data);
}
static unsigned team_size(unsigned req) {
    unsigned n = G.team ? G.team : 1;
    if (self && self->team && ((Team*)self->team)->level >= 1 && ((Team*)self->team)->n > 1) return 1;  // nested: serialised
    if (self && self->omp_threads) n = self->omp_threads;
    if (req) n = req;
    if (G.team_cap && n > G.team_cap) {
        n = G.team_cap;
        count_fault("team_shrunk");
    }
    return n > 16 ? 16 : (n ? n : 1);
}
static void run_team(void (*fn)(void*), void* data, unsigned req, WS* pre) {
    if (!self) {
        fn(data);
        return;
    }
    Team* t  = (Team*)calloc(1, sizeof(Team));
    t->n     = team_size(req);
    t->fn    = fn;
    t->data  = data;
    t->outer = (Team*)self->team;
    t->level = t->outer ? t->outer->level + 1 : 1;
    t->outer_num = self->num;
    unsigned ows = self->ws;
    if (pre) {
        t->ws[0] = *pre;
        t->nws   = 1;
    }
    ++R->regions;
    if (t->n > 1) ++R->par_regions;
    Th* me        = self;
    t->members[0] = me;
    for (unsigned i = 1; i < t->n; ++i) {
        Th* w         = create_thread(child_stream());
        w->team       = t;
        w->num        = i;
        w->body       = team_body;
        t->members[i] = w;
    }
    me->team = t;
    me->num  = 0;
    me->ws   = 0;
    for (unsigned i = 1; i < t->n; ++i) start_os_thread(t->members[i]);
    if (t->n > 1) sync_point();
    fn(data);  // an exception here terminates, exactly as with libgomp
    for (unsigned i = 1; i < t->n; ++i) join_thread(t->members[i]);
    me->team = t->outer;
    me->num  = t->outer_num;
    me->ws   = ows;
    free(t);
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) noexcept { run_team(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) {
    run_team(fn, data, n, nullptr);
    return n;
}

static Team  g_noteam;
static WS*   next_ws(bool* fresh_) {
    Team* t = cur_team();
    if (!t) {
        t    = &g_noteam;
        t->n = 1;
    }
    unsigned i = self ? self->ws : t->nws;
    WS*      w = &t->ws[i % 64];
    *fresh_    = i >= t->nws;
    if (*fresh_) {
        memset(w, 0, sizeof *w);
        t->nws = i + 1;
    }
    return w;
}
static WS* this_ws() {
    Team* t = cur_team();
    if (!t) t = &g_noteam;
    return &t->ws[(self ? self->ws : 0) % 64];
}
enum { S_STATIC, S_DYN, S_GUIDED };
static bool grab(WS* w, long* is, long* ie) {
    sync_point();
    Team*    t  = cur_team();
    unsigned nt = t ? t->n : 1;
    if (w->sched == S_STATIC) {
        // static chunks handed out by (thread, chunk) position
        long ch   = w->chunk;
        long span = w->end - w->next;
        long iters = w->incr > 0 ? (span + w->incr - 1) / w->incr : (span + w->incr + 1) / w->incr;
        if (iters < 0) iters = 0;
        unsigned me = self ? self->num : 0;
        long     k  = self ? self->static_chunk++ : 0;
        if (ch <= 0) {
            if (k) return false;
            long q = iters / nt, r = iters % nt;
            long a = me * q + (long(me) < r ? long(me) : r), b = a + q + (long(me) < r ? 1 : 0);
            if (a >= b) return false;
            *is = w->next + a * w->incr;
            *ie = w->next + b * w->incr;
            return true;
        }
        long a = (k * long(nt) + long(me)) * ch, b = a + ch;
        if (a >= iters) return false;
        if (b > iters) b = iters;
        *is = w->next + a * w->incr;
        *ie = w->next + b * w->incr;
        return true;
    }
    long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    if (left <= 0) return false;
    long ch = w->chunk > 0 ? w->chunk : 1;
    if (w->sched == S_GUIDED) {
        long q = (left + nt - 1) / nt;
        if (q > ch) ch = q;
    }
    if (ch > left) ch = left;
    *is = w->next;
    w->next += ch * w->incr;
    *ie = w->next;
    ++R->chunks;
    return true;
}
static bool ugrab(WS* w, ull* is, ull* ie) {
    sync_point();
    Team*    t  = cur_team();
    unsigned nt = t ? t->n : 1;
    ull      left;
    if (w->up)
        left = w->unext < w->uend ? (w->uend - w->unext + w->uincr - 1) / w->uincr : 0;
    else {
        ull d = 0 - w->uincr;
        left  = w->unext > w->uend ? (w->unext - w->uend + d - 1) / d : 0;
    }
    if (w->sched == S_STATIC) {
        unsigned me = self ? self->num : 0;
        ull      k  = self ? ull(self->static_chunk++) : 0;
        ull      a, b;
        if (w->uchunk == 0) {
            if (k) return false;
            ull q = left / nt, r = left % nt;
            a = me * q + (me < r ? me : r);
            b = a + q + (me < r ? 1 : 0);
        } else {
            a = (k * nt + me) * w->uchunk;
            b = a + w->uchunk;
            if (b > left) b = left;
        }
        if (a >= b) return false;
        *is = w->unext + a * w->uincr;
        *ie = w->unext + b * w->uincr;
        return true;
    }
    if (!left) return false;
    ull ch = w->uchunk ? w->uchunk : 1;
    if (w->sched == S_GUIDED) {
        ull q = (left + nt - 1) / nt;
        if (q > ch) ch = q;
    }
    if (ch > left) ch = left;
    *is = w->unext;
    w->unext += ch * w->uincr;
    *ie = w->unext;
    ++R->chunks;
    return true;
}
static void ws_init(WS* w, int sched, long s, long e, long inc, long ch) {
    w->init  = true;
    w->sched = sched;
    w->next  = s;
    w->end   = e;
    w->incr  = inc;
    w->chunk = ch;
}
static bool loop_start(int sched, long s, long e, long inc, long ch, long* is, long* ie) {
    bool fr;
    WS*  w = next_ws(&fr);
    if (fr) ws_init(w, sched, s, e, inc, ch);
    if (self) self->static_chunk = 0;
    return grab(w, is, ie);
}
static bool uloop_start(int sched, bool up, ull s, ull e, ull inc, ull ch, ull* is, ull* ie) {
    bool fr;
    WS*  w = next_ws(&fr);
    if (fr) {
        w->init   = true;
        w->isull  = true;
        w->up     = up;
        w->sched  = sched;
        w->unext  = s;
        w->uend   = e;
        w->uincr  = inc;
        w->uchunk = ch;
    }
    if (self) self->static_chunk = 0;
    return ugrab(w, is, ie);
}
static void ws_leave(bool wait) {
    Team* t = cur_team();
    if (wait) barrier(t);
    if (self) ++self->ws;
}
#define LOOPS(NAME, SCHED)                                                                               \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) {                    \
        return loop_start(SCHED, s, e, i, c, a, b);                                                      \
    }                                                                                                    \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return grab(this_ws(), a, b); }                     \
    bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) {             \
        return uloop_start(SCHED, up, s, e, i, c, a, b);                                                 \
    }                                                                                                    \
    bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return ugrab(this_ws(), a, b); }                  \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) noexcept { \
        WS w;                                                                                            \
        memset(&w, 0, sizeof w);                                                                         \
        ws_init(&w, SCHED, s, e, i, c);                                                                  \
        run_team(fn, d, n, &w);                                                                          \
    }
LOOPS(static, S_STATIC)
LOOPS(dynamic, S_DYN)
LOOPS(guided, S_GUIDED)
LOOPS(nonmonotonic_dynamic, S_DYN)
LOOPS(nonmonotonic_guided, S_GUIDED)
#define RLOOPS(NAME)                                                                                     \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) {                            \
        return loop_start(S_DYN, s, e, i, 1, a, b);                                                      \
    }                                                                                                    \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return grab(this_ws(), a, b); }                     \
    bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) {                    \
        return uloop_start(S_DYN, up, s, e, i, 1, a, b);                                                 \
    }                                                                                                    \
    bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return ugrab(this_ws(), a, b); }                  \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) noexcept { \
        WS w;                                                                                            \
        memset(&w, 0, sizeof w);                                                                         \
        ws_init(&w, S_DYN, s, e, i, 1);                                                                  \
        run_team(fn, d, n, &w);                                                                          \
    }
RLOOPS(runtime)
RLOOPS(maybe_nonmonotonic_runtime)
RLOOPS(nonmonotonic_runtime)
void GOMP_loop_end(void) { ws_leave(true); }
void GOMP_loop_end_nowait(void) { ws_leave(false); }
bool GOMP_loop_end_cancel(void) {
    ws_leave(true);
    return false;
}
void GOMP_barrier(void) { barrier(cur_team()); }
static int g_crit_default;
void GOMP_critical_start(void) {
    if (self) sim::lock(&g_crit_default);
}
void GOMP_critical_end(void) {
    if (self) sim::unlock(&g_crit_default);
}
void GOMP_critical_name_start(void** p) {
    if (self) sim::lock(p);
}
void GOMP_critical_name_end(void** p) {
    if (self) sim::unlock(p);
}
static int g_atomic_lock;
void GOMP_atomic_start(void) {
    if (self) sim::lock(&g_atomic_lock);
}
void GOMP_atomic_end(void) {
    if (self) sim::unlock(&g_atomic_lock);
}
bool GOMP_single_start(void) {
    bool fr;
    next_ws(&fr);
    if (self) ++self->ws;
    return fr;
}
void* GOMP_single_copy_start(void) {
    bool fr;
    WS*  w = next_ws(&fr);
    if (fr) return nullptr;
    barrier(cur_team());
    void* c = w->copy;
    if (self) ++self->ws;
    return c;
}
void GOMP_single_copy_end(void* d) {
    this_ws()->copy = d;
    barrier(cur_team());
    if (self) ++self->ws;
}
unsigned GOMP_sections_next(void) {
    sync_point();
    WS* w = this_ws();
    return w->snext < w->sections ? ++w->snext : 0;
}
unsigned GOMP_sections_start(unsigned n) {
    bool fr;
    WS*  w = next_ws(&fr);
    if (fr) w->sections = n;
    return GOMP_sections_next();
}
void GOMP_sections_end(void) { ws_leave(true); }
void GOMP_sections_end_nowait(void) { ws_leave(false); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) noexcept {
    WS w;
    memset(&w, 0, sizeof w);
    w.init     = true;
    w.sections = count;
    run_team(fn, d, n, &w);
}
void GOMP_ordered_start(void) {
    if (self) sim::lock((char*)&g_atomic_lock + 1);
}
void GOMP_ordered_end(void) {
    if (self) sim::unlock((char*)&g_atomic_lock + 1);
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int,
               void*) {
    if (cpy) {
        char* buf = (char*)malloc(size_t(sz + al));
        char* p   = (char*)(((uintptr_t)buf + uintptr_t(al) - 1) & ~(uintptr_t(al) - 1));
        cpy(p, data);
        fn(p);
        free(buf);
    } else {
        fn(data);
    }
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { sim::yield(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
int  omp_get_thread_num(void) { return self ? int(self->num) : 0; }
int  omp_get_num_threads(void) {
    Team* t = cur_team();
    return t ? int(t->n) : 1;
}
int omp_get_max_threads(void) { return int(team_size(0)); }
int omp_get_num_procs(void) { return int(G.team ? G.team : 1); }
int omp_in_parallel(void) {
    Team* t = cur_team();
    return t && t->n > 1;
}
void omp_set_num_threads(int n) {
    if (self) self->omp_threads = unsigned(n);
}
void   omp_set_dynamic(int) {}
int    omp_get_dynamic(void) { return 0; }
void   omp_set_nested(int) {}
int    omp_get_nested(void) { return 0; }
double omp_get_wtime(void) { return double(G.mono_ns) * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
int    omp_get_level(void) {
    Team* t = cur_team();
    return t ? int(t->level) : 0;
}
int  omp_get_active_level(void) { return omp_in_parallel(); }
int  omp_get_thread_limit(void) { return 16; }
void omp_set_max_active_levels(int) {}
int  omp_get_max_active_levels(void) { return 1; }
int  omp_get_cancellation(void) { return 0; }
int  omp_get_ancestor_thread_num(int) { return omp_get_thread_num(); }
int  omp_get_team_size(int) { return omp_get_num_threads(); }
struct omp_lk {
    int x;
};
void omp_init_lock(omp_lk* l) { l->x = 0; }
void omp_destroy_lock(omp_lk*) {}
void omp_set_lock(omp_lk* l) {
    if (self) sim::lock(l);
}
void omp_unset_lock(omp_lk* l) {
    if (self) sim::unlock(l);
}
int  omp_test_lock(omp_lk* l) { return self ? sim::trylock(l) : 1; }
void omp_init_nest_lock(omp_lk* l) { l->x = 0; }
void omp_destroy_nest_lock(omp_lk*) {}
void omp_set_nest_lock(omp_lk* l) {
    if (self) sim::lock(l, true);
}
void omp_unset_nest_lock(omp_lk* l) {
    if (self) sim::unlock(l);
}

// ------------------------------------------------------------------------------------------------ compiler callbacks
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define ACC(n)                                                                                          \
    void __tsan_read##n(void* a) { sim::access((uintptr_t)a, n, 0, PC); }                               \
    void __tsan_write##n(void* a) { sim::access((uintptr_t)a, n, 1, PC); }                              \
    void __tsan_read_write##n(void* a) { sim::access((uintptr_t)a, n, 1, PC); }                         \
    void __tsan_unaligned_read##n(void* a) { sim::access((uintptr_t)a, n, 0, PC); }                     \
    void __tsan_unaligned_write##n(void* a) { sim::access((uintptr_t)a, n, 1, PC); }                    \
    void __tsan_volatile_read##n(void* a) { sim::access((uintptr_t)a, n, 0, PC); }                      \
    void __tsan_volatile_write##n(void* a) { sim::access((uintptr_t)a, n, 1, PC); }                     \
    void __tsan_unaligned_volatile_read##n(void* a) { sim::access((uintptr_t)a, n, 0, PC); }            \
    void __tsan_unaligned_volatile_write##n(void* a) { sim::access((uintptr_t)a, n, 1, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, size_t n) { sim::access_range(a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { sim::access_range(a, n, 1, PC); }
void __tsan_vptr_read(void** a) { sim::access((uintptr_t)a, 8, 0, PC); }
void __tsan_vptr_update(void** a, void* v) {
    if (*a != v) sim::access((uintptr_t)a, 8, 1, PC);
}

static inline void atom(const volatile void* a, unsigned n, bool w, bool acq, bool rel, const void* pc) {
    addressable((uintptr_t)a, n, w, pc);
    if (!self) return;
    if (!G.multi) {
        ++G.serial_steps;
        return;
    }
    sync_point();
    race_check((uintptr_t)a, n, (w ? 1u : 0u) | 2u, pc);
    if (acq || rel) {
        SyncObj* s = sync_obj((const void*)a);
        if (acq) vc_join(self->vc, s->vc);
        if (rel) {
            vc_join(s->vc, self->vc);
            tick(self);
        }
    }
}
static inline bool isacq(int m) { return m == 1 || m == 2 || m == 4 || m == 5; }
static inline bool isrel(int m) { return m == 3 || m == 4 || m == 5; }
#define ATOM(B, T)                                                                                       \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) {                                             \
        atom(a, sizeof(T), false, isacq(mo), false, PC);                                                 \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                     \
    }                                                                                                    \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {                                          \
        atom(a, sizeof(T), true, false, isrel(mo), PC);                                                  \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                        \
    }                                                                                                    \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) {                                          \
        atom(a, sizeof(T), true, isacq(mo), isrel(mo), PC);                                              \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                              \
    }                                                                                                    \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) {                                         \
        atom(a, sizeof(T), true, isacq(mo), isrel(mo), PC);                                              \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                    \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) {                                         \
        atom(a, sizeof(T), true, isacq(mo), isrel(mo), PC);                                              \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                    \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) {                                         \
        atom(a, sizeof(T), true, isacq(mo), isrel(mo), PC);                                              \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                    \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) {                                          \
        atom(a, sizeof(T), true, isacq(mo), isrel(mo), PC);                                              \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                \
    }                                                                                                    \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) {                                         \
        atom(a, sizeof(T), true, isacq(mo), isrel(mo), PC);                                              \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                    \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) {                                        \
        atom(a, sizeof(T), true, isacq(mo), isrel(mo), PC);                                              \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                              \
    }                                                                                                    \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) {             \
        atom(a, sizeof(T), true, isacq(mo), isrel(mo), PC);                                              \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
    }                                                                                                    \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) {               \
        atom(a, sizeof(T), true, isacq(mo), isrel(mo), PC);                                              \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
    }                                                                                                    \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) {                    \
        atom(a, sizeof(T), true, isacq(mo), isrel(mo), PC);                                              \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                \
        return c;                                                                                        \
    }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sync_point(); }
void __tsan_atomic_signal_fence(int) {}

// memcpy & co called from the instrumented objects (objcopy --redefine-sym in the build)
void* simw_memcpy(void* d, const void* s, size_t n) {
    sim::access_range(s, n, 0, PC);
    sim::access_range(d, n, 1, PC);
    return memmove(d, s, n);
}
void* simw_memmove(void* d, const void* s, size_t n) {
    sim::access_range(s, n, 0, PC);
    sim::access_range(d, n, 1, PC);
    return memmove(d, s, n);
}
void* simw_memset(void* d, int c, size_t n) {
    sim::access_range(d, n, 1, PC);
    return memset(d, c, n);
}
// malloc & co called from the instrumented objects (the JSON writer): same arena, no injected failures
void* simw_malloc(size_t n) { return sim::heap_alloc(n, 16); }
void* simw_calloc(size_t a, size_t b) {
    void* p = sim::heap_alloc(a * b, 16);
    memset(p, 0, a * b);
    return p;
}
static bool in_arena(void* p) { return (uintptr_t)p - ARENA_BASE < ARENA_SIZE; }
void simw_free(void* p) {
    if (p && !in_arena(p)) return free(p);
    sim::heap_free(p);
}
void* simw_realloc(void* p, size_t n) {
    if (p && !in_arena(p)) return realloc(p, n);
    void* q = sim::heap_alloc(n, 16);
    if (p) {
        size_t old = ((sim::BlockHdr*)p - 1)->size;
        memcpy(q, p, old < n ? old : n);
        sim::heap_free(p);
    }
    return q;
}
}  // extern "C"

// =====================================================================================================================
// driver
// =====================================================================================================================
namespace sim {

static void on_signal(int sig, siginfo_t* si, void*) {
    signal(sig, SIG_DFL);
    if (sig == SIGALRM || sig == SIGPROF) {
        snprintf(R->msg, sizeof R->msg, "no progress: processor time limit reached");
        R->status = ST_HANG;
        finish_counters();
        syscall(SYS_exit_group, 0);
    }
    fail("crash: signal %d (%s) at address %p", sig, strsignal(sig), si ? si->si_addr : nullptr);
}
static void on_terminate() {
    const char* what = "no active exception";
    char        buf[400];
    if (std::exception_ptr e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (const std::exception& x) {
            int   st = 0;
            char* d  = abi::__cxa_demangle(typeid(x).name(), nullptr, nullptr, &st);
            snprintf(buf, sizeof buf, "%s: %s", d ? d : typeid(x).name(), x.what());
            what = buf;
        } catch (...) { what = "exception of unknown type"; }
    }
    fail("the process is terminated (std::terminate): %s", what);
}

struct Args {
    const char* prop      = nullptr;
    uint64_t    base      = 1;
    uint64_t    start     = 0;
    uint64_t    count     = 1;
    uint64_t    stride    = 1;
    double      seconds   = 1e9;
    const char* replay    = nullptr;
    const char* out       = nullptr;
    const char* scratch   = "/tmp";
    bool        own_scratch = false;  // given on the command line: a directory made for this process
    const char* only      = nullptr;
    unsigned    verify    = 0;
    unsigned    maxviol   = 1;
    bool        verbose   = false;
    unsigned    wall      = 120;
    unsigned    tier      = 0;
};
static Args A;

static const Scenario* pick_scenario() {
    const Scenario* list[64];
    unsigned        n = 0, tot = 0;
    for (Scenario* s = g_scenarios; s; s = s->next)
        if (!strcmp(s->prop, A.prop) && (!A.only || !strcmp(A.only, s->name)) && n < 64) list[n++] = s;
    // registration order depends on nothing but the source, but sort by name to be safe
    for (unsigned i = 0; i < n; ++i)
        for (unsigned j = i + 1; j < n; ++j)
            if (strcmp(list[j]->name, list[i]->name) < 0) {
                const Scenario* t = list[i];
                list[i]           = list[j];
                list[j]           = t;
            }
    for (unsigned i = 0; i < n; ++i) tot += list[i]->weight;
    if (!n) {
        dprintf(2, "sim: no scenario for property %s\n", A.prop);
        _exit(3);
    }
    if (G.want_scenario[0])
        for (unsigned i = 0; i < n; ++i)
            if (!strcmp(list[i]->name, G.want_scenario)) return list[i];
    uint64_t r = splitmix(splitmix(G.seed) ^ hash_str("scenario")) % tot;
    for (unsigned i = 0; i < n; ++i) {
        if (r < list[i]->weight) return list[i];
        r -= list[i]->weight;
    }
    return list[0];
}

// between two jobs of one run: no fault of the first one is left pending
static void reset_environment() {
    heap_heal();
    disk_clear();
    set_entropy(ENTROPY_NORMAL);
    set_words(0);
    set_team(0);
    sleep_fault(0);
    set_clock_rate_ppm(0);
    G.step_limit = G.step + G.serial_steps + 1000000000ull;
}

static void root_body() {
    const Scenario* s = pick_scenario();
    snprintf(R->scenario, sizeof R->scenario, "%s", s->name);
    // schedule policy
    if (G.kind != SK_EXPLICIT) {
        uint64_t k = pick("sched_kind", 0, 9);
        G.kind     = k <= 3 ? SK_RANDOM : k <= 6 ? SK_PCT : k == 7 ? SK_STALL : k == 8 ? SK_SYNC : SK_SEQ;
        static const uint64_t means[] = {3, 12, 50, 200, 1000, 6000};
        G.mean                        = means[pick("sched_mean", 0, 5)];
        G.victim                      = int(pick("sched_victim", 1, 8));
        if (G.kind == SK_PCT) {
            G.npct = unsigned(pick("sched_depth", 1, 6));
            // change points: log-uniform over the (unknown) length of the run
            for (unsigned i = 0; i < G.npct; ++i) {
                unsigned e = unsigned(4 + sched_rand() % 14);
                G.pct[i]   = 1 + sched_rand() % (1ull << e);
            }
        }
    }
    R->kind = G.kind;
    heap_garbage(unsigned(pick("fresh_memory", 0, 3) == 0 ? 0 : 0x11 * pick("fresh_memory_byte", 1, 14) + 3));
    G.reuse = pick("memory_reuse", 0, 2) == 2;
    // history: the job is the first of the process, or comes after one or two others that are checked just the same,
    // over other data of other or of the same dimensions
    static const unsigned before[] = {0, 0, 0, 0, 0, 1, 1, 2};
    const uint64_t        history  = pick("history", 0, 7);
    G.same_job                     = history != 5;
    for (unsigned j = 1; j <= before[history]; ++j) {
        const unsigned n0 = R->nparams;
        G.job             = j;
        G.param0          = n0;
        s->fn();
        if (G.same_job) R->nparams = n0;
        reset_environment();
    }
    G.job    = 0;
    G.param0 = R->nparams;
    s->fn();
    if (G.stalls) count_fault("thread_stalled", G.stalls);
    if (G.reused) count_fault("address_reused", G.reused);
    leave(ST_OK);
}

static void child(uint64_t seed) {
    G.seed       = seed;
    G.srng       = splitmix(seed ^ 0xABCDEF12345ull);
    G.in_run     = true;
    G.mono_ns    = MONO_BASE;
    G.step_limit = 1000000000ull;
    G.cur        = 0;
    G.gen        = 1;
    if (!G.bump) arena_init();
    G.bump         = (char*)(ARENA_BASE + (16u << 20));
    G.heap.seq     = 0;
    G.reuse        = false;
    G.reused       = 0;
    memset(g_free_list, 0, sizeof g_free_list);
    memset(&G.heap.st, 0, sizeof G.heap.st);
    G.heap.garbage = 0xA5;
    R->trace_hash  = 1;
    // scenarios see the scratch directory as "./" so that nothing depends on its name
    if (chdir(A.scratch) != 0) _exit(3);
    strcpy(G.scratch, "./");
    if (!A.verbose) {
        int n = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
        dup2(n, 1);
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK;
    int sigs[]      = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGPROF};
    for (int s : sigs) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    // a loop that touches no memory takes no simulated step: limit the processor time as well
    struct itimerval itv = {};
    itv.it_value.tv_sec  = A.wall;
    setitimer(ITIMER_PROF, &itv, nullptr);
    alarm(8 * A.wall);
    pthread_key_create(&G.exit_key, thread_exit);
    G.ntid = 0;
    // tid 0: the scenario's main thread
    G.ntid       = 1;
    Th* t        = &G.th[0];
    memset((void*)t, 0, sizeof *t);
    t->stack     = mmap((void*)STACK_BASE, STACK_SIZE, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    t->altstack  = malloc(ALT_STACK);
    t->vc[0]     = 1;
    t->stream    = splitmix(seed ^ 0x777);
    t->state     = TS_RUN;
    t->prio      = 500000;
    t->body      = root_body;
    G.max_live   = 1;
    start_os_thread(t);
    fwake(&t->futex);
    for (;;) pause();
}

// every run starts with an empty scratch directory (scenarios only create plain files in it)
static void clear_scratch() {
    if (!A.own_scratch) return;
    DIR* d = opendir(A.scratch);
    if (!d) return;
    while (dirent* e = readdir(d))
        if (e->d_type == DT_REG) unlinkat(dirfd(d), e->d_name, 0);
    closedir(d);
}

static bool run_one(uint64_t seed, const Replay* rp) {
    clear_scratch();
    memset((void*)R, 0, offsetof(Result, trace));
    R->status = ST_NONE;
    pid_t p   = fork();
    if (p == 0) {
        if (rp) {
            G.noverride = rp->nparams;
            memcpy(G.override_, rp->params, sizeof rp->params);
            snprintf(G.want_scenario, sizeof G.want_scenario, "%s", rp->scenario);
            if (rp->explicit_) {
                G.kind = SK_EXPLICIT;
                G.xs   = rp->sw;
                G.nx   = rp->nsw;
            }
        }
        child(seed);
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    if (R->status == ST_NONE) {
        // ended from outside (the machine ran out of memory): nothing can be said about the run
        R->status = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? ST_DISCARD : ST_VIOLATION;
        snprintf(R->msg, sizeof R->msg, "crash: child ended abnormally (wait status 0x%x)", st);
    }
    return R->status == ST_OK;
}

static void json_str(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\')
            fprintf(f, "\\%c", *s);
        else if ((unsigned char)*s < 32)
            fprintf(f, "\\u%04x", *s);
        else
            fputc(*s, f);
    }
    fputc('"', f);
}
static void dump_run(FILE* f, uint64_t seed, const char* type, bool with_trace) {
    fprintf(f, "{\"type\":\"%s\",\"seed\":%llu,\"status\":%d,\"scenario\":", type, (unsigned long long)seed, R->status);
    json_str(f, R->scenario);
    fprintf(f, ",\"msg\":");
    json_str(f, R->msg);
    fprintf(f, ",\"kind\":%d,\"steps\":%llu,\"serial\":%llu,\"switches\":%llu,\"forced\":%llu,\"fail_step\":%llu,"
               "\"sched_hash\":\"%016llx\",\"trace_hash\":\"%016llx\",\"pcs\":[",
            R->kind, (unsigned long long)R->steps, (unsigned long long)R->serial, (unsigned long long)R->switches,
            (unsigned long long)R->forced, (unsigned long long)R->fail_step, (unsigned long long)R->sched_hash,
            (unsigned long long)R->trace_hash);
    for (unsigned i = 0; i < R->npc; ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)R->pc[i]);
    fprintf(f, "],\"params\":[");
    for (unsigned i = 0; i < R->nparams; ++i) {
        fprintf(f, "%s[", i ? "," : "");
        json_str(f, R->params[i].name);
        fprintf(f, ",%llu,%llu,%llu]", (unsigned long long)R->params[i].val, (unsigned long long)R->params[i].lo,
                (unsigned long long)R->params[i].hi);
    }
    fprintf(f, "],\"faults\":{");
    for (unsigned i = 0; i < R->nfaults; ++i)
        fprintf(f, "%s\"%s\":%llu", i ? "," : "", R->faults[i].name, (unsigned long long)R->faults[i].n);
    fprintf(f, "},\"trace_overflow\":%d,\"trace\":[", R->trace_overflow);
    if (with_trace)
        for (unsigned i = 0; i < R->ntrace; ++i)
            fprintf(f, "%s[%llu,%d,%d]", i ? "," : "", (unsigned long long)R->trace[i].step, R->trace[i].tid,
                    R->trace[i].forced);
    fprintf(f, "]}\n");
    fflush(f);
}

static bool load_replay(const char* path, Replay* rp) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[512];
    rp->sw = (Switch*)calloc(MAX_TRACE, sizeof(Switch));
    while (fgets(line, sizeof line, f)) {
        char               k[64], n[64];
        unsigned long long a, b, c;
        if (sscanf(line, "seed %llu", &a) == 1)
            rp->seed = a;
        else if (sscanf(line, "property %63s", k) == 1) {
            static char pr[64];
            snprintf(pr, sizeof pr, "%s", k);
            if (!A.prop) A.prop = pr;
        } else if (sscanf(line, "scenario %63s", n) == 1)
            snprintf(rp->scenario, sizeof rp->scenario, "%s", n);
        else if (sscanf(line, "param %39s %llu", n, &a) == 2) {
            if (rp->nparams < MAX_PARAMS) {
                snprintf(rp->params[rp->nparams].name, sizeof rp->params[0].name, "%s", n);
                rp->params[rp->nparams++].val = a;
            }
        } else if (!strncmp(line, "schedule explicit", 17))
            rp->explicit_ = true;
        else if (sscanf(line, "at %llu %llu %llu", &a, &b, &c) == 3 && rp->nsw < MAX_TRACE) {
            rp->sw[rp->nsw].step     = a;
            rp->sw[rp->nsw].tid      = int(b);
            rp->sw[rp->nsw++].forced = int(c);
        }
    }
    fclose(f);
    return true;
}

static double now_s() {
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

}  // namespace sim

// thorough or quick: scenarios may enlarge their bounds
unsigned sim_tier() { return sim::A.tier; }

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        auto arg = [&](const char* n) { return !strcmp(argv[i], n) && i + 1 < argc; };
        if (arg("--prop")) A.prop = argv[++i];
        else if (arg("--base")) A.base = strtoull(argv[++i], nullptr, 0);
        else if (arg("--start")) A.start = strtoull(argv[++i], nullptr, 0);
        else if (arg("--count")) A.count = strtoull(argv[++i], nullptr, 0);
        else if (arg("--stride")) A.stride = strtoull(argv[++i], nullptr, 0);
        else if (arg("--seconds")) A.seconds = atof(argv[++i]);
        else if (arg("--replay")) A.replay = argv[++i];
        else if (arg("--out")) A.out = argv[++i];
        else if (arg("--scratch")) A.scratch = argv[++i], A.own_scratch = true;
        else if (arg("--only")) A.only = argv[++i];
        else if (arg("--verify")) A.verify = unsigned(atoi(argv[++i]));
        else if (arg("--max-violations")) A.maxviol = unsigned(atoi(argv[++i]));
        else if (arg("--wall")) A.wall = unsigned(atoi(argv[++i]));
        else if (arg("--tier")) A.tier = unsigned(atoi(argv[++i]));
        else if (!strcmp(argv[i], "--verbose")) A.verbose = true;
        else {
            dprintf(2, "sim: bad argument %s\n", argv[i]);
            return 3;
        }
    }
    arena_init();
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    FILE* out = A.out ? fopen(A.out, "w") : stdout;
    if (!out) return 3;
    G.verbose = A.verbose;
    if (A.replay) {
        static Replay rp;
        if (!load_replay(A.replay, &rp)) {
            dprintf(2, "sim: cannot read %s\n", A.replay);
            return 3;
        }
        run_one(rp.seed, &rp);
        dump_run(out, rp.seed, "run", true);
        return R->status == ST_OK ? 0 : R->status == ST_VIOLATION || R->status == ST_HANG ? 1 : 3;
    }
    if (!A.prop) return 3;
    double             t0 = now_s();
    uint64_t           runs = 0, steps = 0, serial = 0, switches = 0, forced = 0, simns = 0, nontriv = 0, viol = 0, herr = 0;
    uint64_t           verified = 0, mismatched = 0, regions = 0, par = 0, maxlive = 0, draws = 0, accesses = 0, chunks = 0;
    uint64_t           contended = 0, kinds[8] = {0}, hangs = 0, discarded = 0, max_steps = 0;
    FaultCount         fc[64];
    unsigned           nfc = 0;
    FaultCount         sc[64];
    unsigned           nsc = 0;
    char               hp[512];
    snprintf(hp, sizeof hp, "%s.hashes", A.out ? A.out : "/dev/null");
    FILE* hf = A.out ? fopen(hp, "w") : nullptr;
    for (uint64_t i = 0; i < A.count; ++i) {
        if (now_s() - t0 > A.seconds) break;
        uint64_t seed = A.base * 1000003ull + A.start + i * A.stride;
        const double r0 = now_s();
        run_one(seed, nullptr);
        if (getenv("SIM_SLOW") && now_s() - r0 > 3) {
            dprintf(2, "slow: %.1fs seed %llu %s %llu steps:", now_s() - r0, (unsigned long long)seed, R->scenario, (unsigned long long)(R->steps + R->serial));
            for (unsigned k = 0; k < R->nparams; ++k) dprintf(2, " %s=%llu", R->params[k].name, (unsigned long long)R->params[k].val);
            dprintf(2, "\n");
        }
        ++runs;
        if (R->status == ST_VIOLATION || R->status == ST_HANG) {
            ++viol;
            if (R->status == ST_HANG) ++hangs;
            dump_run(out, seed, "violation", true);
            if (viol >= A.maxviol) break;
            continue;
        }
        if (R->status == ST_DISCARD) {
            ++discarded;
            dump_run(out, seed, "discarded", false);
            continue;
        }
        if (R->steps + R->serial > max_steps) max_steps = R->steps + R->serial;
        if (R->status == ST_HARNESS) {
            ++herr;
            dump_run(out, seed, "harness_error", false);
            continue;
        }
        steps += R->steps;
        serial += R->serial;
        switches += R->switches;
        forced += R->forced;
        simns += R->sim_ns;
        nontriv += R->nontrivial ? 1 : 0;
        regions += R->regions;
        par += R->par_regions;
        draws += R->entropy_draws;
        accesses += R->accesses;
        chunks += R->chunks;
        contended += R->contended;
        if (R->kind < 8) ++kinds[R->kind];
        if (R->max_live > maxlive) maxlive = R->max_live;
        for (unsigned k = 0; k < R->nfaults; ++k) {
            unsigned j = 0;
            for (; j < nfc; ++j)
                if (!strcmp(fc[j].name, R->faults[k].name)) break;
            if (j == nfc && nfc < 64) fc[nfc++] = FaultCount{}, snprintf(fc[j].name, sizeof fc[j].name, "%s", R->faults[k].name);
            if (j < 64) fc[j].n += R->faults[k].n;
        }
        {
            unsigned j = 0;
            for (; j < nsc; ++j)
                if (!strcmp(sc[j].name, R->scenario)) break;
            if (j == nsc && nsc < 64) sc[nsc++] = FaultCount{}, snprintf(sc[j].name, sizeof sc[j].name, "%.31s", R->scenario);
            if (j < 64) ++sc[j].n;
        }
        if (hf) {
            fprintf(hf, "s %016llx\n", (unsigned long long)R->sched_hash);
            if (R->nontrivial) fprintf(hf, "n %016llx\n", (unsigned long long)R->trace_hash);
            for (unsigned k = 0; k < R->nstates; ++k) fprintf(hf, "t %016llx\n", (unsigned long long)R->states[k]);
        }
        if (i < 2) dump_run(out, seed, "sample", false);
        if (A.verify && i % A.verify == 0) {
            uint64_t h = R->trace_hash, g = R->sched_hash, st = R->steps;
            run_one(seed, nullptr);
            ++verified;
            if (R->trace_hash != h || R->sched_hash != g || R->steps != st) {
                ++mismatched;
                dump_run(out, seed, "nondeterminism", false);
            }
        }
    }
    if (hf) fclose(hf);
    fprintf(out,
            "{\"type\":\"summary\",\"runs\":%llu,\"steps\":%llu,\"serial\":%llu,\"switches\":%llu,\"forced\":%llu,"
            "\"sim_ns\":%llu,\"nontrivial\":%llu,\"violations\":%llu,\"harness_errors\":%llu,\"verified\":%llu,"
            "\"mismatched\":%llu,\"regions\":%llu,\"par_regions\":%llu,\"max_live\":%llu,\"entropy_draws\":%llu,"
            "\"accesses\":%llu,\"chunks\":%llu,\"contended\":%llu,\"discarded\":%llu,\"max_steps\":%llu,\"wall_s\":%.3f,\"kinds\":[",
            (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)serial, (unsigned long long)switches,
            (unsigned long long)forced, (unsigned long long)simns, (unsigned long long)nontriv, (unsigned long long)viol,
            (unsigned long long)herr, (unsigned long long)verified, (unsigned long long)mismatched,
            (unsigned long long)regions, (unsigned long long)par, (unsigned long long)maxlive, (unsigned long long)draws,
            (unsigned long long)accesses, (unsigned long long)chunks, (unsigned long long)contended, (unsigned long long)discarded,
            (unsigned long long)max_steps, now_s() - t0);
    for (int i = 0; i < 8; ++i) fprintf(out, "%s%llu", i ? "," : "", (unsigned long long)kinds[i]);
    fprintf(out, "],\"faults\":{");
    for (unsigned i = 0; i < nfc; ++i) fprintf(out, "%s\"%s\":%llu", i ? "," : "", fc[i].name, (unsigned long long)fc[i].n);
    fprintf(out, "},\"scenarios\":{");
    for (unsigned i = 0; i < nsc; ++i) fprintf(out, "%s\"%s\":%llu", i ? "," : "", sc[i].name, (unsigned long long)sc[i].n);
    fprintf(out, "}}\n");
    fflush(out);
    return viol ? 1 : 0;
}
