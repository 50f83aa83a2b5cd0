// P06 random draws, P07 sampling without replacement, P08 weighted draws and k-means++ seeding.
#include "util.hpp"

#include "ffcl/common/math/random/Distributions.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"

using namespace scn;
namespace rnd = ffcl::common::math::random;

namespace {

template <typename T>
std::vector<double> draw_uniform(T lo, T hi, std::size_t n, bool ends, bool seeded) {
    rnd::uniform_distribution<T> u(lo, hi);
    std::vector<double>          r;
    bool                         low = false, high = false;
    for (std::size_t i = 0; i < n; ++i) {
        const T x = seeded ? u(std::size_t(7 + i)) : u();
        SIM_CHECK(x >= lo && x <= hi, "a uniform draw from [%g, %g] gave %g", double(lo), double(hi), double(x));
        if (std::is_floating_point<T>::value && lo < hi)
            SIM_CHECK(std::isfinite(double(x)), "a uniform draw from [%g, %g] is not finite", double(lo), double(hi));
        low  = low || x == lo;
        high = high || x == hi;
        r.push_back(double(x));
    }
    // every quarter of a range that is not tiny has its share
    if (!sim::words() && !seeded && n >= 200 && double(hi) - double(lo) > 5e4) {
        std::size_t part[4] = {0, 0, 0, 0};
        for (auto x : r) ++part[std::min<std::size_t>(3, std::size_t((x - double(lo)) / (double(hi) - double(lo)) * 4))];
        for (int i = 0; i < 4; ++i)
            SIM_CHECK(part[i] > n / 20, "%zu of %zu uniform draws from [%g, %g] are in quarter %d of the range", part[i], n, double(lo), double(hi), i);
    }
    if (ends) SIM_CHECK(low && high, "%zu uniform draws from [%g, %g] never gave its %s end", n, double(lo), double(hi), low ? "upper" : "lower");
    return r;
}
template <typename T>
std::vector<double> draw_normal(T mean, T sd, std::size_t n, bool seeded) {
    rnd::normal_distribution<T> u(mean, sd);
    std::vector<double>         r;
    for (std::size_t i = 0; i < n; ++i) {
        const T x = seeded ? u(std::size_t(3)) : u();
        SIM_CHECK(std::isfinite(double(x)), "a normal draw with mean %g and deviation %g is not finite", double(mean), double(sd));
        SIM_CHECK(std::fabs(double(x) - double(mean)) <= 12 * double(sd), "a normal draw with mean %g and deviation %g gave %g",
                  double(mean), double(sd), double(x));
        r.push_back(double(x));
    }
    return r;
}
std::vector<double> draw_binomial(int trials, double rate, std::size_t n, bool seeded) {
    rnd::normal_distribution<int> u(trials, rate);
    std::vector<double>           r;
    for (std::size_t i = 0; i < n; ++i) {
        const int x = seeded ? u(std::size_t(3)) : u();
        SIM_CHECK(x >= 0 && x <= trials, "the number of successes in %d trials is %d", trials, x);
        r.push_back(double(x));
    }
    return r;
}
}  // namespace

SIM_SCENARIO(P06, threads, 3) {
    pick_entropy();
    const unsigned threads = unsigned(sim::pick("threads", 1, 5));
    const uint64_t stream  = sim::pick("stream", 1, 1 << 20);
    std::vector<std::function<std::vector<double>()>> jobs;
    sim::Rng                                          g = sim::rng("kinds");
    for (unsigned t = 0; t < threads; ++t) {
        const unsigned    kind = unsigned(g.below(12));
        const std::size_t n    = 1 + (g.below(40) ? g.below(40) : g.below(1500));
        const int         a    = int(g.below(2000)) - 1000;
        const unsigned    w    = unsigned(g.below(50));
        const bool        seeded = g.below(6) == 0;
        jobs.push_back([=]() -> std::vector<double> {
            switch (kind) {
                case 0: return draw_uniform<int>(a, a + int(w), n, false, seeded);
                case 1: return draw_uniform<std::size_t>(std::size_t(w), std::size_t(w) + n, n, false, seeded);
                case 2: return draw_uniform<float>(float(a), float(a) + float(w), n, false, seeded);
                case 3: return draw_uniform<double>(-1.0, 1.0, n, false, seeded);
                case 4: return draw_normal<float>(float(a), float(w) + 0.5f, n, seeded);
                case 5: return draw_binomial(int(w), double(n) / 50.0, n, seeded);
                case 6: return draw_uniform<std::size_t>(0, std::numeric_limits<std::size_t>::max(), n, false, seeded);
                case 7: return draw_uniform<int>(std::numeric_limits<int>::min(), w % 2 ? std::numeric_limits<int>::max() : a, n, false, seeded);
                case 8: return draw_uniform<long long>(-(1ll << (w + 12)), (1ll << (w + 12)) + a, n, false, seeded);
                case 9: return draw_uniform<float>(float(a), float(a), n, false, seeded);
                case 10: return draw_uniform<short>(short(-32768), short(32767), n, false, seeded);
                default: return draw_uniform<std::size_t>(0, 3, 300, !sim::words(), false);
            }
        });
    }
    at_once_and_alone<std::vector<double>>(jobs, stream, "the numbers drawn");
}
// with a healthy entropy source different threads see different numbers; repeated draws vary
SIM_SCENARIO(P06, own_stream, 2) {
    const unsigned threads = unsigned(sim::pick("threads", 2, 5));
    const uint64_t stream  = sim::pick("stream", 1, 1 << 20);
    std::vector<std::vector<double>>   got(threads);
    std::vector<std::function<void()>> run;
    const bool                         shared_object = sim::pick("shared_object", 0, 1);
    rnd::uniform_distribution<std::size_t> shared(0, ~std::size_t(0) >> 1);
    (void)shared_object;
    for (unsigned t = 0; t < threads; ++t)
        run.push_back([&, t] { got[t] = draw_uniform<std::size_t>(0, ~std::size_t(0) >> 1, 6, false, false); });
    sim::concurrently(run, stream);
    for (unsigned a = 0; a < threads; ++a) {
        std::set<double> s(got[a].begin(), got[a].end());
        SIM_CHECK(s.size() > 1, "thread %u drew the same number every time", a);
        for (unsigned b = a + 1; b < threads; ++b)
            SIM_CHECK(got[a] != got[b], "threads %u and %u with different entropy drew the same numbers", a, b);
    }
    sim::nontrivial();
}
// parallel region workers: each worker has a generator of its own
SIM_SCENARIO(P06, workers, 2) {
    pick_entropy(true);
    const unsigned threads = unsigned(sim::pick("threads", 1, 6));
    const uint64_t stream  = sim::pick("stream", 1, 1 << 20);
    const int      lo = int(sim::pick("lo", 0, 20)) - 10, width = int(sim::pick("width", 0, 5));
    std::vector<std::function<std::vector<double>()>> jobs;
    for (unsigned t = 0; t < threads; ++t)
        jobs.push_back([=] { return draw_uniform<int>(lo, lo + width, 400, true, false); });
    at_once_and_alone<std::vector<double>>(jobs, stream, "the numbers drawn");
}

// ------------------------------------------------------------------------------------------------------------- P07
namespace {
template <typename T>
void check_subset(const std::vector<T>& got, const std::vector<T>& pool, std::size_t n, const char* what) {
    SIM_CHECK(got.size() == n, "%s returned %zu elements instead of %zu", what, got.size(), n);
    // pool elements are pairwise different here
    auto s = got, all = pool;
    std::sort(s.begin(), s.end());
    std::sort(all.begin(), all.end());
    SIM_CHECK(std::adjacent_find(s.begin(), s.end()) == s.end(), "%s returned the same element twice", what);
    SIM_CHECK(std::includes(all.begin(), all.end(), s.begin(), s.end()), "%s returned an element that is not in the pool", what);
}
}  // namespace

namespace {
// many elements of at least twice as many: both halves of the pool contribute (each is short of an eighth with probability below e^-28)
template <typename V>
void check_halves(const V& got, const V& pool, const char* what) {
    if (sim::words() || got.size() < 100 || pool.size() < 2 * got.size()) return;
    std::set<typename V::value_type> upper(pool.begin() + long(pool.size() / 2), pool.end());
    std::size_t                      high = 0;
    for (const auto& x : got) high += upper.count(x);
    SIM_CHECK(high * 8 > got.size() && (got.size() - high) * 8 > got.size(), "%s: %zu of %zu elements come from the upper half of a pool of %zu", what, high, got.size(), pool.size());
}
}  // namespace

SIM_SCENARIO(P07, distinct, 3) {
    pick_entropy();
    const bool        huge = sim::pick("huge", 0, 159) == 159, giant = huge && sim::pick("giant", 0, 4) == 4;
    const std::size_t m = giant ? sim::pick("pool", 4000, 70000) : sim::pick("pool", 1, huge ? 700 : sim::pick("big", 0, 7) == 7 ? 300 : 24);
    const std::size_t n = giant && sim::pick("few", 0, 1) ? sim::pick("n", 0, 40) : sim::pick("n", 0, m);
    const std::size_t far_base[] = {1000, 65500, (std::size_t(1) << 24) - 9, (std::size_t(1) << 31) - 9, (std::size_t(1) << 32) - 9, (std::size_t(1) << 53) - 9, ~std::size_t(0) - 5000};
    std::size_t       base       = sim::pick("base", 0, 50);
    if (sim::pick("far_base", 0, 3) == 3) base += far_base[sim::pick("which_base", 0, 6)];
    const int signed_base = int(sim::pick("signed_base", 0, 4000)) - 2000;
    sim::Rng          g    = sim::rng("pool");
    std::vector<int>  pool(m);
    for (std::size_t i = 0; i < m; ++i) pool[i] = int(i * 7 + g.below(7)) - 40;
    for (std::size_t i = 0; i < m; ++i) std::swap(pool[i], pool[i + g.below(m - i)]);
    const auto     keep    = pool;
    const unsigned threads = unsigned(sim::pick("threads", 1, 4));
    std::vector<std::function<std::vector<std::size_t>()>> jobs;
    for (unsigned t = 0; t < threads; ++t)
        jobs.push_back([&, t]() -> std::vector<std::size_t> {
            std::vector<std::size_t> out;
            for (int rep = 0; rep < (giant ? 1 : 3); ++rep) {
                const auto a = rnd::select_n_elements(pool.begin(), pool.end(), n);
                check_subset(a, pool, n, "select_n_elements");
                check_halves(a, pool, "select_n_elements");
                for (auto x : a) out.push_back(std::size_t(x + 1000));
                const auto b = rnd::make_n_elements_from_interval<std::size_t>(n, {base, base + m});
                std::vector<std::size_t> all(m);
                std::iota(all.begin(), all.end(), base);
                check_subset(b, all, n, "make_n_elements_from_interval");
                check_halves(b, all, "make_n_elements_from_interval");
                out.insert(out.end(), b.begin(), b.end());
                const auto c = rnd::make_n_elements_from_interval<int>(n, {signed_base, signed_base + int(m)});
                std::vector<int> ints(m);
                std::iota(ints.begin(), ints.end(), signed_base);
                check_subset(c, ints, n, "make_n_elements_from_interval");
                for (auto x : c) out.push_back(std::size_t(x + 5000));
            }
            return out;
        });
    at_once_and_alone<std::vector<std::size_t>>(jobs, 11, "the selections made");
    SIM_CHECK(pool == keep, "sampling changed the pool");
}
SIM_SCENARIO(P07, complete, 2) {
    pick_entropy(true);
    // a few positions, some, or more than a byte can count; few elements of many, or many
    const bool        some = sim::pick("some", 0, 7) == 7, many = some && sim::pick("many", 0, 7) == 7;
    const std::size_t m = many ? sim::pick("pool", 257, 420) : some ? sim::pick("pool", 9, 90) : sim::pick("pool", 1, 8);
    const std::size_t n = sim::pick("few", 0, 1) ? sim::pick("n", 1, std::max<std::size_t>(1, m / 8)) : sim::pick("n", 1, m);
    std::vector<std::size_t> pool(m);
    std::iota(pool.begin(), pool.end(), 0);
    std::vector<std::size_t> seen(m), first(m);
    const bool               interval = sim::pick("interval", 0, 1);
    // enough selections that a position that can be selected is missed with probability below e^-30
    const std::size_t reps = std::max<std::size_t>(400, some ? 30 * m / n : 0);
    for (std::size_t rep = 0; rep < reps; ++rep) {
        const auto a = interval ? rnd::make_n_elements_from_interval<std::size_t>(n, {0, m})
                                : rnd::select_n_elements(pool.begin(), pool.end(), n);
        check_subset(a, pool, n, "a selection");
        for (auto x : a) ++seen[x];
        ++first[a[0]];
    }
    const double p = double(n) / double(m), e = double(reps) * p, sd = std::sqrt(e * (1 - p));
    for (std::size_t i = 0; i < m; ++i) {
        SIM_CHECK(seen[i] > 0, "position %zu of %zu was never selected in %zu selections of %zu", i, m, reps, n);
        SIM_CHECK(std::fabs(double(seen[i]) - e) <= 8 * sd + (some ? 12 : 1e-9), "position %zu of %zu was selected %zu times in %zu selections of %zu", i, m,
                  seen[i], reps, n);
        if (!some) SIM_CHECK(first[i] > 0, "position %zu of %zu never came first in %zu selections of %zu", i, m, reps, n);
    }
    sim::nontrivial();
}
namespace {
template <typename T>
void sample_rows() {
    pick_entropy();
    Far               far(2);
    const std::size_t n = far("n_samples", 1, 20, 150, 300, 5000), d = far("n_features", 1, 4, 40);
    const std::size_t want  = sim::pick("want", 0, n + 3);
    sim::Rng          g     = sim::rng("data");
    const unsigned    shape = pick_shape();
    std::vector<T>    v     = make_values<T>(n, d, shape, g);
    if (sim::pick("distinct_rows", 0, 1))
        for (std::size_t i = 0; i < n; ++i) v[i * d] = T(double(i) * 3 - 20);
    const auto keep = v;
    auto       rows = [&](const std::vector<T>& x) {
        std::vector<std::vector<T>> r;
        for (std::size_t i = 0; i + d <= x.size(); i += d) r.emplace_back(x.begin() + i, x.begin() + i + d);
        std::sort(r.begin(), r.end());
        return r;
    };
    const auto     all     = rows(v);
    const unsigned threads = unsigned(sim::pick("threads", 1, 4));
    // an index list into the rows, a subset in any order
    std::vector<std::size_t> idx(n);
    std::iota(idx.begin(), idx.end(), 0);
    for (std::size_t i = 0; i < n; ++i) std::swap(idx[i], idx[i + g.below(n - i)]);
    idx.resize(1 + g.below(n));
    std::vector<T> sub;
    for (auto i : idx) sub.insert(sub.end(), v.begin() + i * d, v.begin() + i * d + d);
    const auto allsub = rows(sub);
    std::vector<std::function<std::vector<double>()>> jobs;
    for (unsigned t = 0; t < threads; ++t)
        jobs.push_back([&, t]() -> std::vector<double> {
            const auto a  = rnd::select_n_random_samples(v.begin(), v.end(), d, want);
            const auto ra = rows(a);
            const std::size_t k = std::min(want, n);
            SIM_CHECK(a.size() == k * d, "select_n_random_samples returned %zu values for %zu samples", a.size(), k);
            SIM_CHECK(std::includes(all.begin(), all.end(), ra.begin(), ra.end()),
                      "select_n_random_samples returned a row more often than the dataset holds it");
            const auto b  = rnd::select_n_random_samples_from_indices(idx.begin(), idx.end(), v.begin(), v.end(), d, want);
            const auto rb = rows(b);
            const std::size_t kb = std::min(want, idx.size());
            SIM_CHECK(b.size() == kb * d, "select_n_random_samples_from_indices returned %zu values for %zu samples", b.size(), kb);
            SIM_CHECK(std::includes(allsub.begin(), allsub.end(), rb.begin(), rb.end()),
                      "select_n_random_samples_from_indices returned a row more often than the indexed samples hold it");
            const std::size_t kc = std::min(want, n);
            const auto        c  = rnd::init_uniform(v.begin(), v.end(), d, kc);
            const auto        rc = rows(c);
            SIM_CHECK(c.size() == kc * d && std::includes(all.begin(), all.end(), rc.begin(), rc.end()),
                      "init_uniform did not return distinct samples");
            const auto e = rnd::select_random_sample(v.begin(), v.end(), d);
            SIM_CHECK(e.size() == d && std::find(all.begin(), all.end(), e) != all.end(), "select_random_sample did not return a sample");
            const auto f = rnd::init_spatial_uniform(v.begin(), v.end(), d, want);
            SIM_CHECK(f.size() == want * d, "init_spatial_uniform returned %zu values for %zu positions", f.size(), want);
            for (std::size_t j = 0; j < d; ++j) {
                T lo = v[j], hi = v[j];
                for (std::size_t i = 0; i < n; ++i) {
                    lo = std::min(lo, v[i * d + j]);
                    hi = std::max(hi, v[i * d + j]);
                }
                for (std::size_t i = 0; i < want; ++i)
                    SIM_CHECK(f[i * d + j] >= lo && f[i * d + j] <= hi,
                              "a spatially uniform position has feature %zu = %g outside the data's range [%g, %g]", j,
                              double(f[i * d + j]), double(lo), double(hi));
            }
            std::vector<double> out(a.begin(), a.end());
            out.insert(out.end(), b.begin(), b.end());
            out.insert(out.end(), c.begin(), c.end());
            out.insert(out.end(), e.begin(), e.end());
            out.insert(out.end(), f.begin(), f.end());
            return out;
        });
    at_once_and_alone<std::vector<double>>(jobs, 12, "the samples selected");
    SIM_CHECK(v == keep, "sampling changed the dataset");
}
}  // namespace
SIM_SCENARIO(P07, rows_float, 3) { sample_rows<float>(); }
SIM_SCENARIO(P07, rows_int, 1) { sample_rows<int>(); }
SIM_SCENARIO(P07, rows_double, 1) { sample_rows<double>(); }
// every row of the dataset can be selected
SIM_SCENARIO(P07, rows_complete, 1) {
    pick_entropy(true);
    const std::size_t n = sim::pick("some", 0, 7) == 7 ? sim::pick("n_samples", 8, 90) : sim::pick("n_samples", 1, 7);
    const std::size_t k = sim::pick("few", 0, 1) ? sim::pick("want", 1, std::max<std::size_t>(1, n / 8)) : sim::pick("want", 1, n);
    std::vector<float> v(n * 2);
    for (std::size_t i = 0; i < n; ++i) v[2 * i] = float(i);
    std::vector<std::size_t> idx(n);
    std::iota(idx.begin(), idx.end(), 0);
    const unsigned           how = unsigned(sim::pick("how", 0, 3));
    std::vector<std::size_t> seen(n);
    const std::size_t        reps = std::max<std::size_t>(300, 34 * n / (how == 3 ? 1 : k));
    for (std::size_t rep = 0; rep < reps; ++rep) {
        const auto a = how == 0   ? rnd::select_n_random_samples(v.begin(), v.end(), 2, k)
                       : how == 1 ? rnd::select_n_random_samples_from_indices(idx.begin(), idx.end(), v.begin(), v.end(), 2, k)
                       : how == 2 ? rnd::init_uniform(v.begin(), v.end(), 2, k)
                                  : rnd::select_random_sample(v.begin(), v.end(), 2);
        for (std::size_t i = 0; i < a.size(); i += 2) ++seen[std::size_t(a[i])];
    }
    for (std::size_t i = 0; i < n; ++i)
        SIM_CHECK(seen[i] > 0, "sample %zu of %zu was never selected in %zu selections of %zu", i, n, reps, k);
    sim::nontrivial();
}

// ------------------------------------------------------------------------------------------------------------- P08
namespace {
template <typename W>
void weighted(bool many = false) {
    pick_entropy();
    const bool        huge = many || sim::pick("huge", 0, 159) == 159, giant = many || (huge && sim::pick("giant", 0, 2) == 2);
    const std::size_t n = giant ? sim::pick("n_weights", 1025, 70000) : sim::pick("n_weights", 1, huge ? 400 : sim::pick("big", 0, 7) == 7 ? 90 : 12);
    sim::Rng          g = sim::rng("weights");
    std::vector<W>    w(n);
    const unsigned    kind = giant && sim::pick("gaps", 0, 2) ? 6 + unsigned(sim::pick("kind", 0, 1)) : unsigned(sim::pick("kind", 0, 7));
    const std::size_t heavy = g.below(n), gap = 2 + g.below(9);
    std::size_t       at = 0;
    for (auto& x : w) {
        const std::size_t i = at++;
        switch (kind) {
            case 0: x = W(1); break;
            case 1: x = W(g.below(100)); break;
            case 2: x = W(g.below(3) ? 0 : 1 + g.below(50)); break;
            case 3: x = W(std::is_floating_point<W>::value ? g.unit() : double(g.below(1000))); break;
            case 4: x = W(std::pow(10.0, double(g.below(6)))); break;
            case 5: x = W(0); break;
            // the same weight, not a round number, at regular places and nothing elsewhere; one weight that outweighs all others
            case 6: x = W(i % gap ? 0.0 : std::is_floating_point<W>::value ? 0.1 : 3.0); break;
            default: x = W(i == heavy ? 1000.0 : i % gap ? (std::is_floating_point<W>::value ? 1e-3 : 1.0) * double(i % 11) : 0.0); break;
        }
    }
    double sum = 0;
    for (auto x : w) sum += double(x);
    const unsigned    threads = giant ? 1 : unsigned(sim::pick("threads", 1, 3));
    const std::size_t draws   = giant ? 8000 : 1500;
    std::vector<std::function<std::vector<std::size_t>()>> jobs;
    for (unsigned t = 0; t < threads; ++t)
        jobs.push_back([&]() -> std::vector<std::size_t> {
            rnd::VosesAliasMethod<W> a(w);
            std::vector<std::size_t> cnt(n);
            for (std::size_t i = 0; i < draws; ++i) {
                const std::size_t x = i & 1 ? a() : a.sample();
                SIM_CHECK(x < n, "a weighted draw over %zu weights gave index %zu", n, x);
                SIM_CHECK(double(w[x]) > 0 || sum == 0, "index %zu of %zu was drawn although its weight is zero", x, n);
                ++cnt[x];
            }
            if (sum > 0 && !sim::words()) {
                // groups of indices: odd, a third, the first half, the light ones
                for (unsigned group = 0; group < 4; ++group) {
                    double      p = 0;
                    std::size_t c = 0;
                    for (std::size_t i = 0; i < n; ++i)
                        if (group == 0 ? i % 2 == 1 : group == 1 ? i % 3 == 1 : group == 2 ? i < n / 2 : double(w[i]) * double(n) < sum) p += double(w[i]) / sum, c += cnt[i];
                    const double e = p * double(draws), sd = std::sqrt(std::max(0.0, e * (1 - p)));
                    SIM_CHECK(std::fabs(double(c) - e) <= 7.5 * sd + 12, "a group of the %zu indices with probability %.6g was drawn %zu times in %zu draws (expected %.1f)", n, p, c, draws, e);
                }
                for (std::size_t i = 0; i < n; ++i) {
                    const double p = double(w[i]) / sum, e = p * double(draws), sd = std::sqrt(e * (1 - p));
                    SIM_CHECK(std::fabs(double(cnt[i]) - e) <= 7.5 * sd + 12,
                              "index %zu of %zu with probability %.6g was drawn %zu times in %zu draws (expected %.1f)", i, n, p, cnt[i], draws, e);
                }
            }
            return cnt;
        });
    at_once_and_alone<std::vector<std::size_t>>(jobs, 21, "the weighted draws");
    if (sum > 0) sim::nontrivial();
}
template <typename T>
void seeding() {
    pick_entropy();
    Far               far(3);
    const std::size_t n = far("n_samples", 1, 18, 100, 300, 2000), d = far("n_features", 1, 3, 36), few = far("n_centroids", 1, 8, 30), k = sim::pick("all", 0, 15) == 15 ? std::min<std::size_t>(n, 60) : few;
    sim::Rng          g    = sim::rng("data");
    std::vector<T>    v    = make_values<T>(n, d, pick_shape(), g);
    const auto        keep = v;
    std::set<std::vector<T>> positions;
    for (std::size_t i = 0; i < n; ++i) positions.insert(std::vector<T>(v.begin() + i * d, v.begin() + i * d + d));
    const unsigned threads = unsigned(sim::pick("threads", 1, 3));
    std::vector<std::function<std::vector<double>()>> jobs;
    for (unsigned t = 0; t < threads; ++t)
        jobs.push_back([&]() -> std::vector<double> {
            const auto a = ffcl::kmeansplusplus::make_centroids(v.begin(), v.end(), d, k);
            SIM_CHECK(a.size() == k * d, "k-means++ returned %zu values for %zu centroids of %zu features", a.size(), k, d);
            std::set<std::vector<T>> used;
            for (std::size_t i = 0; i < k; ++i) {
                const std::vector<T> c(a.begin() + i * d, a.begin() + i * d + d);
                SIM_CHECK(positions.count(c), "k-means++ centroid %zu is not a sample", i);
                const bool fresh_position = used.insert(c).second;
                SIM_CHECK(fresh_position || used.size() == positions.size(),
                          "k-means++ centroid %zu repeats a position although %zu of %zu positions are unused", i,
                          positions.size() - used.size(), positions.size());
            }
            const auto b = ffcl::kmeansplusplus::make_centroids_from_previous_centroid(v.begin(), v.end(), d, k);
            SIM_CHECK(b.size() == k * d, "k-means++ (previous) returned %zu values for %zu centroids", b.size(), k);
            for (std::size_t i = 0; i < k; ++i) {
                const std::vector<T> c(b.begin() + i * d, b.begin() + i * d + d);
                SIM_CHECK(positions.count(c), "k-means++ (previous) centroid %zu is not a sample", i);
                if (i && positions.size() > 1)
                    SIM_CHECK(c != std::vector<T>(b.begin() + (i - 1) * d, b.begin() + i * d),
                              "k-means++ (previous) centroid %zu repeats the previous position", i);
            }
            std::vector<double> out(a.begin(), a.end());
            out.insert(out.end(), b.begin(), b.end());
            return out;
        });
    at_once_and_alone<std::vector<double>>(jobs, 22, "the seeded centroids");
    SIM_CHECK(v == keep, "seeding changed the dataset");
    if (positions.size() > 1 && k > 1) sim::nontrivial();
}
}  // namespace
SIM_SCENARIO(P08, weights_float, 2) { weighted<float>(); }
SIM_SCENARIO(P08, weights_many, 1) {
    // one run in eight: tables of that size are slow
    if (sim::pick("many", 0, 7) == 7) weighted<float>(true);
    else weighted<float>();
}
SIM_SCENARIO(P08, weights_double, 1) { weighted<double>(); }
SIM_SCENARIO(P08, weights_int, 1) { weighted<int>(); }
SIM_SCENARIO(P08, seeding_float, 3) { seeding<float>(); }
SIM_SCENARIO(P08, seeding_double, 1) { seeding<double>(); }
// the second centroid follows the distances to the first one
SIM_SCENARIO(P08, seeding_law, 2) {
    pick_entropy(true);
    const std::size_t n = sim::pick("n_samples", 2, 5);
    std::vector<float> v;
    sim::Rng           g = sim::rng("data");
    for (std::size_t i = 0; i < n; ++i) v.push_back(float(3 * i * i + 1 + g.below(2)) * 2.0f - 9.0f);
    std::vector<std::vector<std::size_t>> cnt(n, std::vector<std::size_t>(n));
    auto where = [&](float x) { return std::size_t(std::find(v.begin(), v.end(), x) - v.begin()); };
    const std::size_t draws = 600;
    const bool        prev  = sim::pick("previous", 0, 1);
    for (std::size_t r = 0; r < draws; ++r) {
        const auto c = prev ? ffcl::kmeansplusplus::make_centroids_from_previous_centroid(v.begin(), v.end(), 1, 2)
                            : ffcl::kmeansplusplus::make_centroids(v.begin(), v.end(), 1, 2);
        SIM_CHECK(c.size() == 2 && where(c[0]) < n && where(c[1]) < n, "k-means++ centroid is not a sample");
        ++cnt[where(c[0])][where(c[1])];
    }
    for (std::size_t a = 0; a < n; ++a) {
        double      sum = 0;
        std::size_t tot = 0;
        for (std::size_t b = 0; b < n; ++b) {
            sum += std::fabs(double(v[a]) - double(v[b]));
            tot += cnt[a][b];
        }
        SIM_CHECK(tot > 0, "sample %zu of %zu never came first in %zu seedings", a, n, draws);
        for (std::size_t b = 0; b < n; ++b) {
            const double p = std::fabs(double(v[a]) - double(v[b])) / sum, e = p * double(tot), sd = std::sqrt(e * (1 - p));
            SIM_CHECK(std::fabs(double(cnt[a][b]) - e) <= 7.5 * sd + 10,
                      "after sample %zu, sample %zu with probability %.4g was seeded %zu times of %zu", a, b, p, cnt[a][b], tot);
        }
    }
    sim::nontrivial();
}
