// Deterministic simulation runtime: public interface used by the scenarios.
//
// One run = one child process = one seed.  Everything a scenario (and the FFCL code it drives) can observe that is
// not a pure function of its inputs comes from here: which thread runs next, how many threads a parallel region
// gets, what the entropy device returns, what fresh memory contains, whether an allocation / disk write succeeds,
// and what the clocks say.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- decisions
// Named decision in [lo, hi].  Drawn from (seed, name, occurrence); recorded; can be overridden by a replay file.
uint64_t pick(const char* name, uint64_t lo, uint64_t hi);

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double   unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
Rng rng(const char* name);  // bulk data stream derived from (seed, name)

// ---------------------------------------------------------------- verdicts
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void              note_state(uint64_t h);           // contributes to the "distinct states" measure
void              trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // -> trace hash (and log on replay)
void              nontrivial();                    // this run exercised the property non-vacuously

// ---------------------------------------------------------------- threads
// Run the jobs as concurrent simulated threads and wait for all of them.  Every job gets a fresh OS thread (fresh
// thread_local state) whose entropy stream is derived from `stream` and its position.
void concurrently(const std::vector<std::function<void()>>& jobs, uint64_t stream);
// Run one job alone in a fresh thread with the entropy stream that the job at `position` of concurrently() gets.
void fresh(uint64_t stream, const std::function<void()>& job, unsigned position = 0);
void set_team(unsigned n);        // number of threads an OpenMP region gets (0: leave to the runtime's default)
void yield();                     // explicit scheduling point
unsigned self_id();
void set_step_limit(uint64_t n);  // progress bound for the rest of the run

// ---------------------------------------------------------------- entropy device
enum Entropy { ENTROPY_NORMAL = 0, ENTROPY_LOW = 1, ENTROPY_ZERO = 2, ENTROPY_ONES = 3 };
void set_entropy(int mode);
// words of the generator itself: 0 leaves them alone, otherwise about one of six becomes an extreme one
void     set_words(uint64_t salt);
uint64_t words();
uint32_t generator_word(uint32_t word);

// ---------------------------------------------------------------- heap
struct HeapStats {
    uint64_t allocs, frees, live_blocks, live_bytes, total_bytes;
};
HeapStats heap_stats();
// Fail operator new: the `at`-th call (1-based) from now, and if `sticky` every later one too, until heap_heal().
void     heap_fail(uint64_t at, bool sticky);
void     heap_fail_size(uint64_t min_bytes);  // fail every request of at least this many bytes
uint64_t heap_heal();                         // stop failing; returns how many requests were failed
uint64_t heap_count_begin();                  // count operator-new calls from here
uint64_t heap_count_end();
void     heap_garbage(unsigned pattern);      // what fresh memory contains
void     heap_pause(bool on);                 // do not account (harness-only bookkeeping)

// ---------------------------------------------------------------- clocks (nanoseconds)
uint64_t mono_now();
void     wall_jump(int64_t ns);  // step the wall clock
void     time_pass(uint64_t ns);
void     sleep_fault(unsigned interrupts);  // next sleeps are interrupted this many times
void     set_clock_rate_ppm(int64_t wall_skew_ppm);

// ---------------------------------------------------------------- disk (only descriptors opened below the scratch dir)
struct DiskPlan {
    // byte offset at which the fault fires; ~0: never
    uint64_t enospc_at   = ~0ull;  // device full from this byte on
    uint64_t eio_at      = ~0ull;  // write error when crossing this byte (once)
    unsigned short_mod   = 0;      // !=0: writes are cut short to at most this many bytes
    unsigned eintr_every = 0;      // !=0: every n-th write is interrupted
    bool     open_fails  = false;
    bool     close_fails = false;  // deferred write-back error reported by close
    uint64_t lost_from   = ~0ull;  // with close_fails: bytes from here on never reach the disk
};
void        disk_plan(const DiskPlan&);
void        disk_clear();
const char* scratch();  // directory private to this run

struct DiskStats {
    uint64_t opens, writes, bytes, faults, closes;
};
DiskStats disk_stats();

void count_fault(const char* kind, uint64_t n = 1);

// ---------------------------------------------------------------- scenarios
struct Scenario {
    const char* prop;
    const char* name;
    unsigned    weight;
    void (*fn)();
    Scenario*   next;
    Scenario(const char* p, const char* n, unsigned w, void (*f)());
};
#define SIM_SCENARIO(prop, name, weight)                                       \
    static void           scn_##prop##_##name();                              \
    static sim::Scenario  scnreg_##prop##_##name(#prop, #name, weight, scn_##prop##_##name); \
    static void           scn_##prop##_##name()

#define SIM_CHECK(cond, ...)             \
    do {                                 \
        if (!(cond)) sim::fail(__VA_ARGS__); \
    } while (0)

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 29);
}
}  // namespace sim
