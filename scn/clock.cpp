// P18: timers while the wall clock is stepped and skewed, sleeps are interrupted and threads compete.
#include "util.hpp"

#include "ffcl/common/Timer.hpp"

#include <fcntl.h>
#include <unistd.h>

namespace {
using namespace scn;

template <typename U>
constexpr double unit_ns() {
    return double(std::chrono::duration_cast<std::chrono::nanoseconds>(U(1)).count());
}
// what the harness knows about one timer
struct Track {
    uint64_t from_lo = 0, from_hi = 0;  // it was started between these instants
    int64_t  last    = 0;
    bool     read    = false;
};
template <typename U>
void judge(Track& t, int64_t reading, uint64_t before, uint64_t after, const char* who) {
    const double u = unit_ns<U>(), lo = double(before - t.from_hi), hi = double(after - t.from_lo);
    SIM_CHECK(reading >= 0, "%s: negative elapsed time %lld", who, (long long)reading);
    SIM_CHECK(!t.read || reading >= t.last, "%s: elapsed time went back from %lld to %lld", who, (long long)t.last, (long long)reading);
    SIM_CHECK(double(reading) * u > lo - u && double(reading) * u < hi + u, "%s: elapsed time %lld units of %g ns after %g ns", who, (long long)reading, u, lo);
    t.last = reading;
    t.read = true;
}
void disturb(sim::Rng& g) {
    switch (g.below(6)) {
        case 0: sim::wall_jump(-int64_t(g.below(1000) * 1000000ull * (1 + g.below(100000)))); break;
        case 1: sim::wall_jump(int64_t(g.below(1000) * 1000000ull * (1 + g.below(100000)))); break;
        case 2:
            sim::set_clock_rate_ppm(int64_t(g.below(2000000)) - 900000);
            sim::count_fault("clock_skew");
            break;
        case 3: sim::wall_jump(-int64_t(1 + g.below(2000))); break;
        default: break;
    }
}
void pass(sim::Rng& g) {
    static const uint64_t unit[] = {1, 1000, 1000000, 1000000000, 60000000000ull, 86400000000000ull};
    const uint64_t        u      = unit[g.below(6)];
    sim::time_pass(g.below(u > 60000000000ull ? 400 : 3000) * u / (g.below(2) ? 1 : 7) + g.below(1000));
}
template <typename U>
double printed_seconds(const ffcl::common::Timer<U>& t, int decimals) {
    // standard output goes to a file of the run for the time of the call
    const std::string path = std::string(sim::scratch()) + "printed";
    fflush(stdout);
    const int old = dup(1), fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    dup2(fd, 1);
    if (decimals < 0)
        t.print_elapsed_seconds();
    else
        t.print_elapsed_seconds(uint8_t(decimals));
    fflush(stdout);
    dup2(old, 1);
    close(old);
    char    b[256] = {};
    lseek(fd, 0, SEEK_SET);
    const ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    SIM_CHECK(n > 0, "nothing was printed");
    const char* c = strstr(b, "(s):");
    SIM_CHECK(c, "no seconds were printed");
    return atof(c + 4);
}
template <typename U>
void sleeping(ffcl::common::Timer<U>& t, sim::Rng& g, bool alone) {
    const uint64_t k  = g.below(5) == 0 ? 0 : 1 + g.below(2500);
    const unsigned in = g.below(2) ? unsigned(1 + g.below(3)) : 0;
    sim::sleep_fault(in);
    const uint64_t s0 = sim::mono_now();
    double         want = 0;
    switch (g.below(4)) {
        case 0: t.template sleep<ffcl::common::Seconds>(long(k)); want = double(k) * 1e9; break;
        case 1: t.template sleep<ffcl::common::Milliseconds>(long(k)); want = double(k) * 1e6; break;
        case 2: t.template sleep<ffcl::common::Microseconds>(long(k)); want = double(k) * 1e3; break;
        default: t.template sleep<ffcl::common::Nanoseconds>(long(k)); want = double(k); break;
    }
    const double took = double(sim::mono_now() - s0);
    if (alone) sim::sleep_fault(0);
    SIM_CHECK(took >= want, "slept %g ns instead of %g ns", took, want);
    if (alone) SIM_CHECK(took <= want * 1.01 + 1e6, "slept %g ns instead of %g ns", took, want);
}
template <typename U>
void history(sim::Rng g, std::size_t steps, bool alone, const char* who) {
    if (alone) pass(g);
    Track t;
    t.from_lo = sim::mono_now();
    ffcl::common::Timer<U> timer;
    t.from_hi = sim::mono_now();
    for (std::size_t i = 0; i < steps; ++i) {
        disturb(g);
        switch (g.below(alone ? 8 : 6)) {
            case 0:
                t         = Track();
                t.from_lo = sim::mono_now();
                timer.reset();
                t.from_hi = sim::mono_now();
                break;
            case 1:
            case 2: sleeping<U>(timer, g, alone); break;
            case 3: pass(g); break;
            case 6: {
                const int      dec    = g.below(2) ? -1 : int(g.below(12));
                const uint64_t before = sim::mono_now();
                const double   x      = printed_seconds<U>(timer, dec);
                const uint64_t after  = sim::mono_now();
                const int      shown  = dec >= 0 ? dec : unit_ns<U>() == 1e9 ? 0 : unit_ns<U>() == 1e6 ? 3 : unit_ns<U>() == 1e3 ? 6 : 9;
                const double   lo = double(before - t.from_hi) * 1e-9, hi = double(after - t.from_lo) * 1e-9;
                const double   eps = unit_ns<U>() * 1e-9 + 0.51 * std::pow(10.0, -shown) + 1e-6 * hi;
                SIM_CHECK(x >= lo - eps && x <= hi + eps, "%s: printed %.9f seconds after %.9f", who, x, lo);
                break;
            }
            case 7: {  // a copy keeps running from the same start
                const auto     copy   = timer;
                const uint64_t before = sim::mono_now();
                const int64_t  r      = copy.elapsed();
                judge<U>(t, r, before, sim::mono_now(), who);
                break;
            }
            default: break;
        }
        const uint64_t before = sim::mono_now();
        const int64_t  r      = timer.elapsed();
        judge<U>(t, r, before, sim::mono_now(), who);
        sim::note_state(sim::mix(uint64_t(r), i));
    }
}
void history_of(unsigned unit, sim::Rng g, std::size_t steps, bool alone, const char* who) {
    switch (unit) {
        case 0: history<ffcl::common::Seconds>(g, steps, alone, who); break;
        case 1: history<ffcl::common::Milliseconds>(g, steps, alone, who); break;
        case 2: history<ffcl::common::Microseconds>(g, steps, alone, who); break;
        default: history<ffcl::common::Nanoseconds>(g, steps, alone, who); break;
    }
}
}  // namespace

SIM_SCENARIO(P18, history, 2) {
    history_of(unsigned(sim::pick("unit", 0, 3)), sim::rng("history"), sim::pick("steps", 1, 24), true, "timer");
    sim::nontrivial();
}
SIM_SCENARIO(P18, threads, 1) {
    const std::size_t                  nt = sim::pick("threads", 2, 4);
    std::vector<std::function<void()>> jobs;
    const std::size_t                  steps = sim::pick("steps", 1, 10);
    sim::Rng                           g     = sim::rng("threads");
    for (std::size_t i = 0; i < nt; ++i) {
        const unsigned unit = unsigned(g.below(4));
        const sim::Rng gg(g.next());
        jobs.push_back([=] { history_of(unit, gg, steps, false, "timer of a thread"); });
    }
    sim::concurrently(jobs, 6);
    sim::nontrivial();
}
