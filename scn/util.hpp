// Shared helpers of the scenarios: data generation and naive reference computations.
#pragma once
#include "../sim/rt.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

unsigned sim_tier();

// Seam: every word the library's generator produces can be replaced by one a real stream contains too, but so rarely
// that no search over seeds would meet it (0, 1, the largest ones, the middle).  The choice is a function of the word
// and of the run, so a thread's sequence still depends on its own stream only.
template <>
inline std::mt19937::result_type std::mt19937::operator()() {
    if (_M_p >= state_size) _M_gen_rand();
    result_type z = _M_x[_M_p++];
    z ^= (z >> 11) & 0xffffffffUL;
    z ^= (z << 7) & 0x9d2c5680UL;
    z ^= (z << 15) & 0xefc60000UL;
    z ^= (z >> 18);
    return sim::generator_word(uint32_t(z));
}

namespace scn {

// ---------------------------------------------------------------- datasets
struct Data {
    std::vector<float> v;
    std::size_t        n = 0, d = 0;
    const float*       row(std::size_t i) const { return v.data() + i * d; }
};

enum Shape {
    UNIFORM,     // general position
    GRID,        // small integers: many ties and duplicates
    CLUSTERS,    // well separated blobs
    LINE,        // only one feature varies
    CONSTANT,    // all samples identical
    OFFSET,      // general position far from the origin (negative side)
    SCALES,      // magnitudes spread over many orders
    SORTED,      // monotone along every axis
    NSHAPES,
    TINY = NSHAPES,  // general position, values around 1e-8
    CLOSE,           // values that only the last bits tell apart
    JITTER,          // small integers, nearly: ties broken by far less than the distances
    DIAGONAL,        // all features of a sample agree, up to the sign
    SPARSE,          // mostly zeros
    LAST_SHAPE = SPARSE
};

template <typename T = float>
std::vector<T> make_values(std::size_t n, std::size_t d, unsigned shape, sim::Rng& g) {
    std::vector<T> v(n * d);
    // blob centres
    std::vector<double> c(6 * (d ? d : 1));
    double              jitter = 0, same = 0;
    for (auto& x : c) x = double(g.below(2000)) / 10.0 - 100.0;
    bool steps = true;
    if (shape == JITTER) {
        const bool wide = std::is_same<T, double>::value;
        jitter          = std::pow(10.0, -1.0 - double(wide && g.below(2) ? 5 + g.below(4) : g.below(wide ? 11 : 5)));
        steps           = g.below(2) == 0;
    }
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t blob = g.below(5);
        if (shape == DIAGONAL) same = g.unit() * 20.0 - 10.0;
        for (std::size_t j = 0; j < d; ++j) {
            double x = 0;
            switch (shape) {
                case UNIFORM: x = g.unit() * 20.0 - 10.0; break;
                case GRID: x = double(g.below(5)); break;
                case CLUSTERS: x = c[blob * d + j] + g.unit() * 2.0; break;
                case LINE: x = j == 0 ? g.unit() * 30.0 - 15.0 : 1.5; break;
                case CONSTANT: x = 3.25; break;
                case OFFSET: x = -1000.0 - g.unit() * 50.0; break;
                case TINY: x = (g.unit() - 0.5) * 2e-8; break;
                case CLOSE: x = 1.0 + double(g.below(512)) * double(std::is_floating_point<T>::value ? std::numeric_limits<T>::epsilon() : T(1)); break;
                case JITTER: x = double(g.below(4)) + (steps ? double(g.below(3)) : g.unit()) * jitter; break;
                case DIAGONAL: x = j % 2 ? -same : same; break;
                case SPARSE: x = g.below(4) ? 0.0 : g.unit() * 20.0 - 10.0; break;
                case SCALES: x = (g.unit() - 0.5) * std::pow(10.0, double(int(g.below(7)) - 3)); break;
                default: x = double(i) * 0.75 + g.unit() * 0.5; break;
            }
            v[i * d + j] = static_cast<T>(x);
        }
    }
    return v;
}
// other values in the same place: what was computed from the old ones must not be believed any more
template <typename T>
bool overwrite(std::vector<T>& v, std::size_t n, std::size_t d, sim::Rng& g, int shape = -1) {
    if (g.below(3) == 0) return false;
    const auto w = make_values<T>(n, d, shape < 0 ? unsigned(g.below(LAST_SHAPE + 1)) : unsigned(shape), g);
    std::copy(w.begin(), w.end(), v.begin());
    return true;
}
inline Data make_data(const char* tag, std::size_t n, std::size_t d, unsigned shape) {
    sim::Rng g = sim::rng(tag);
    Data     r;
    r.n = n;
    r.d = d;
    r.v = make_values<float>(n, d, shape, g);
    return r;
}
inline unsigned pick_shape(const char* name = "shape") {
    return unsigned(sim::pick(name, 0, LAST_SHAPE));
}

// ---------------------------------------------------------------- naive distances (double precision)
template <typename T>
double ref_distance(const T* a, const T* b, std::size_t d) {
    double s = 0;
    for (std::size_t j = 0; j < d; ++j) {
        const double x = double(a[j]) - double(b[j]);
        s += std::is_floating_point<T>::value ? x * x : std::fabs(x);
    }
    return std::is_floating_point<T>::value ? std::sqrt(s) : s;
}
// what rounding in the element type may change in a distance over a few dozen features
template <typename T>
constexpr double rel() {
    return std::is_same<T, float>::value ? 1e-5 : 1e-12;
}
inline double tol(double x, double rel = 1e-4, double abs_ = 1e-5) {
    return rel * std::fabs(x) + abs_;
}
inline bool near(double a, double b, double rel = 1e-4, double abs_ = 1e-5) {
    return std::fabs(a - b) <= tol(std::max(std::fabs(a), std::fabs(b)), rel, abs_);
}
template <typename T>
uint64_t hash_values(const T& v, uint64_t h = 99) {
    for (const auto& x : v) {
        uint64_t u = 0;
        std::memcpy(&u, &x, sizeof x < 8 ? sizeof x : 8);
        h = sim::mix(h, u);
    }
    return h;
}
inline uint64_t fbits(double x) {
    uint64_t u;
    std::memcpy(&u, &x, 8);
    return u;
}

// Sizes of a workload.  Mostly small, so that coincidences, ties and borders are frequent; in one run of eight one of
// the dimensions is far larger, for what only shows beyond some size; in a few runs it is huge, in fewer giant.
struct Far {
    unsigned which, next = 0;
    bool     huge = false, giant = false;
    explicit Far(unsigned dims) {
        const unsigned x = unsigned(sim::pick("far", 0, 8 * dims - 1));
        which            = x < 7 * dims ? ~0u : x - 7 * dims;
        huge             = sim::pick("huge", 0, 159) == 159;
        giant            = huge && sim::pick("giant", 0, 4) == 4;
        if (huge) which = ~0u;
    }
    std::size_t operator()(const char* name, std::size_t lo, std::size_t hi, std::size_t far, std::size_t most = 0, std::size_t vast = 0) {
        if (giant && vast > most) return sim::pick(name, vast > 1025 ? 1025 : 513, vast);
        if (huge && most > far) return sim::pick(name, std::max({hi, far, std::min<std::size_t>(258, most)}), most);
        if (next++ == which) return sim::pick(name, hi, std::max(hi, far));
        return sim::pick(name, lo, hi);
    }
    bool any() const { return huge || which != ~0u; }
};

// team sizes: 1, few, many; more threads than work is legal
inline unsigned pick_team(const char* name = "team") {
    return unsigned(sim::pick(name, 1, 8));
}
// the jobs at once, then each of them alone with the same entropy: the outcomes have to agree bit for bit
template <typename Out>
void at_once_and_alone(const std::vector<std::function<Out()>>& jobs, uint64_t stream, const char* what) {
    std::vector<Out>                   together(jobs.size()), alone(jobs.size());
    std::vector<std::function<void()>> run;
    for (std::size_t i = 0; i < jobs.size(); ++i) run.push_back([&, i] { together[i] = jobs[i](); });
    sim::concurrently(run, stream);
    for (std::size_t i = 0; i < jobs.size(); ++i) sim::fresh(stream, [&] { alone[i] = jobs[i](); }, unsigned(i));
    for (std::size_t i = 0; i < jobs.size(); ++i) {
        SIM_CHECK(together[i] == alone[i], "%s in thread %zu differ from what the thread gets alone", what, i);
        sim::note_state(hash_values(together[i]));
    }
    if (jobs.size() > 1) sim::nontrivial();
}
// saves to a file; false when the failure was reported, by the return value or by an exception
template <typename S>
bool save_to(const S& s, const std::string& path) {
    if constexpr (std::is_same<decltype(s.serialize(path)), void>::value) {
        s.serialize(path);
        return true;
    } else {
        return bool(s.serialize(path));
    }
}
// `law`: the scenario counts how often something is drawn, so the generator has to be the real one
inline int pick_entropy(bool law = false) {
    const int m = int(sim::pick("entropy", 0, 5));
    sim::set_words(!law && sim::pick("extreme_words", 0, 4) == 4 ? sim::pick("words_salt", 1, 1 << 20) : 0);
    sim::set_entropy(m > 3 ? 0 : m);
    return m > 3 ? 0 : m;
}

}  // namespace scn
