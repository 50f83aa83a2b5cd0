// P03 multi-start k-means, P04 k-means refinement quality.
#include "util.hpp"

#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"
#include "ffcl/kmeans/Lloyd.hpp"

using namespace scn;

namespace {

template <typename T>
struct Nearest {
    std::size_t index;
    double      d1, d2;
};
template <typename T, typename C>
Nearest<T> nearest(const T* x, const std::vector<C>& centroids, std::size_t d) {
    const double inf = std::numeric_limits<double>::infinity();
    Nearest<T>   r{0, inf, inf};
    for (std::size_t c = 0; c * d < centroids.size(); ++c) {
        double s = 0;
        for (std::size_t j = 0; j < d; ++j) {
            const double t = double(x[j]) - double(centroids[c * d + j]);
            s += t * t;
        }
        s = std::sqrt(s);
        if (s < r.d1) {
            r.d2    = r.d1;
            r.d1    = s;
            r.index = c;
        } else if (s < r.d2) {
            r.d2 = s;
        }
    }
    return r;
}
template <typename T, typename C>
double total_distance(const std::vector<T>& v, std::size_t d, const std::vector<C>& c) {
    double s = 0;
    for (std::size_t i = 0; i * d < v.size(); ++i) s += nearest(&v[i * d], c, d).d1;
    return s;
}
template <typename T, typename C>
double sse(const std::vector<T>& v, std::size_t d, const std::vector<C>& c) {
    double s = 0;
    for (std::size_t i = 0; i * d < v.size(); ++i) {
        const double x = nearest(&v[i * d], c, d).d1;
        s += x * x;
    }
    return s;
}
template <typename T>
double max_abs(const std::vector<T>& v) {
    double m = 0;
    for (auto x : v) m = std::max(m, std::fabs(double(x)));
    return m;
}
template <typename T>
double eps_of() {
    return double(std::numeric_limits<T>::epsilon());
}

// the algorithm that is used when none is named
template <template <typename> class Algo>
struct Default : std::false_type {};
template <>
struct Default<ffcl::Hamerly> : std::true_type {};
template <template <typename> class Algo, typename M, typename T>
std::vector<T> fit_with(M& m, std::vector<T>& v, std::size_t d) {
    if (Default<Algo>::value && sim::pick("unnamed", 0, 1)) return m.fit(v.begin(), v.end(), d);
    return m.template fit<Algo>(v.begin(), v.end(), d);
}

// Watches the restarts of a fit from inside: every refinement that fit() sets up is one of these.  The log is kept by
// functions without instrumentation, so it adds neither scheduling points nor accesses that could race.
struct SpyEntry {
    uint64_t start, last;
    uint64_t steps;
};
SpyEntry    g_spy[64];
unsigned    g_spies;
template <typename T>
__attribute__((no_sanitize("thread"), noinline)) uint64_t spy_hash(const T* p, std::size_t n) {
    uint64_t h = 0x51u + n;
    for (std::size_t i = 0; i < n; ++i) {
        uint64_t b = 0;
        __builtin_memcpy(&b, p + i, sizeof(T));
        h = (h ^ b) * 0xff51afd7ed558ccdull;
        h ^= h >> 29;
    }
    return h;
}
__attribute__((no_sanitize("thread"), noinline)) unsigned spy_begin(uint64_t start) {
    const unsigned s = g_spies++ % 64;
    g_spy[s].start   = start;
    g_spy[s].last    = start;
    g_spy[s].steps   = 0;
    return s;
}
__attribute__((no_sanitize("thread"), noinline)) void spy_step(unsigned s, uint64_t now) {
    g_spy[s].last = now;
    ++g_spy[s].steps;
}
template <template <typename> class Algo>
struct Watch {
    template <typename It>
    struct Spy : Algo<It> {
        using T = typename std::iterator_traits<It>::value_type;
        Spy(const std::tuple<It, It, std::size_t>& data, const std::vector<T>& c)
          : Algo<It>(data, c)
          , slot(spy_begin(spy_hash(c.data(), c.size()))) {}
        auto step() {
            auto c = Algo<It>::step();
            spy_step(slot, spy_hash(c.data(), c.size()));
            return c;
        }
        unsigned slot;
    };
};

// the refinement loop written out: what one restart does on its own
template <template <typename> class Algo, typename T, typename Opt>
std::vector<T> refine_alone(std::vector<T>& v, std::size_t d, std::vector<T> c, const Opt& o, std::size_t& steps) {
    steps = 0;
    Algo<typename std::vector<T>::iterator> a(std::make_tuple(v.begin(), v.end(), d), c);
    std::vector<T>                          prev;
    std::size_t                             quiet = 0;
    for (std::size_t it = 0; it < o.max_iter_; ++it) {
        c = a.step();
        ++steps;
        bool same = prev.size() == c.size();
        for (std::size_t i = 0; same && i < c.size(); ++i) same = !(std::abs(c[i] - prev[i]) > o.tolerance_);
        if (o.early_stopping_ && same) {
            if (quiet == o.patience_) break;
            ++quiet;
        } else {
            quiet = 0;
        }
        prev = c;
    }
    return c;
}

template <template <typename> class Algo, typename T>
void multistart() {
    Far               far(4);
    const std::size_t n = far("n_samples", 3, sim_tier() ? 40 : 26, 140, 300, 1100), d = far("n_features", 1, 4, 40);
    const std::size_t k    = far("n_clusters", 1, std::min<std::size_t>(n, 5), std::min<std::size_t>(n, 20));
    const std::size_t init = far("n_init", 1, 7, 24);
    sim::Rng          g    = sim::rng("data");
    std::vector<T>    v    = make_values<T>(n, d, pick_shape(), g);
    const auto        keep = v;
    using KM               = ffcl::KMeans<T>;
    static const std::size_t iters[] = {0, 1, 2, 3, 5, 10, 40};
    const double         scale  = max_abs(v);
    const double         tols[] = {0, 0, 1e-3, 0.5, 0.02 * scale, 0.1 * scale, 0.4 * scale};
    typename KM::Options o;
    o.max_iter(iters[sim::pick("max_iter", 0, 6)])
        .early_stopping(sim::pick("early_stopping", 0, 3) != 0)
        .patience(sim::pick("patience", 0, 2))
        .tolerance(T(tols[sim::pick("tolerance", 0, 6)]))
        .n_init(init);
    const unsigned              how = unsigned(sim::pick("init", 0, 3));
    std::vector<std::vector<T>> starts;
    auto                        initializer = [&](const auto& first, const auto& last, std::size_t nf, std::size_t nc) {
        std::vector<T> c;
        if (how == 0)
            c = ffcl::kmeansplusplus::make_centroids(first, last, nf, nc);
        else if (how == 1)
            c = ffcl::common::math::random::init_uniform(first, last, nf, nc);
        else if (how == 2 || starts.empty())
            for (std::size_t i = 0; i < nc * nf; ++i) c.push_back(first[g.below(n) * nf + i % nf]);
        else  // restarts that begin close to each other
            for (auto x : starts.back()) c.push_back(T(double(x) + (g.unit() - 0.5) * 0.1 * scale));
        starts.push_back(c);
        return c;
    };
    sim::set_team(pick_team());
    KM              km(k);
    KM              km2(k, o);
    const bool      set = sim::pick("set_options", 0, 1);
    KM&             m   = set ? km.set_options(o) : km2;
    const bool      spy = sim::pick("watch_restarts", 0, 2) != 0;
    g_spies             = 0;
    std::vector<T>  got = spy ? m.template fit<Watch<Algo>::template Spy>(v.begin(), v.end(), d, initializer)
                          : Default<Algo>::value && sim::pick("unnamed", 0, 1)
                              ? m.fit(v.begin(), v.end(), d, initializer)
                              : m.template fit<Algo>(v.begin(), v.end(), d, initializer);
    SIM_CHECK(v == keep, "fitting changed the dataset");
    SIM_CHECK(starts.size() == init, "%zu restarts were requested but %zu were started", init, starts.size());
    SIM_CHECK(got.size() == k * d, "fit returned %zu values for %zu centroids of %zu features", got.size(), k, d);
    // each restart on its own
    std::vector<std::vector<T>> alone;
    std::vector<double>         loss;
    for (auto& s : starts) {
        std::size_t steps;
        alone.push_back(refine_alone<Algo>(v, d, s, o, steps));
        if (spy) {
            bool     known = false, same = false;
            uint64_t made = 0;
            for (unsigned i = 0; i < g_spies && i < 64; ++i)
                if (g_spy[i].start == spy_hash(s.data(), s.size())) {
                    known = true;
                    made  = g_spy[i].steps;
                    same  = same || (made == steps && g_spy[i].last == spy_hash(alone.back().data(), alone.back().size()));
                }
            SIM_CHECK(known, "a restart was never refined");
            SIM_CHECK(same, "a restart made %zu refinement steps next to the others; alone its stopping rule ends it after %zu, or at other centroids",
                      std::size_t(made), steps);
        }
        loss.push_back(total_distance(v, d, alone.back()));
    }
    const double best = *std::min_element(loss.begin(), loss.end());
    bool         found = false;
    double       gotloss = -1;
    for (std::size_t i = 0; i < alone.size(); ++i)
        if (alone[i] == got) {
            found   = true;
            gotloss = loss[i];
        }
    SIM_CHECK(found, "the returned centroids are not those of any restart refined on its own (total distance %g, best restart %g)",
              total_distance(v, d, got), best);
    const double slack = double(n) * eps_of<T>() * 16 * max_abs(v) + rel<T>() * best;
    SIM_CHECK(gotloss <= best + slack, "fit returned a restart with total distance %.9g although one with %.9g exists",
              gotloss, best);
    // the model uses what it returned
    const auto lab = m.predict(v.begin(), v.end(), d);
    const auto dst = m.forward(v.begin(), v.end(), d);
    SIM_CHECK(lab.size() == n && dst.size() == n, "predict/forward returned %zu/%zu values for %zu samples", lab.size(),
              dst.size(), n);
    for (std::size_t i = 0; i < n; ++i) {
        const auto   r = nearest(&v[i * d], got, d);
        const double e = rel<T>() * (max_abs(v) + max_abs(got));
        SIM_CHECK(lab[i] < k && ref_distance(&v[i * d], &got[lab[i] * d], d) <= r.d1 + e,
                  "after fit, sample %zu is assigned to %zu which is not its nearest centroid", i, lab[i]);
        SIM_CHECK(std::fabs(double(dst[i]) - r.d1) <= e, "after fit, the distance of sample %zu is %g, expected %g", i,
                  double(dst[i]), r.d1);
    }
    sim::note_state(hash_values(got));
    if (init > 1) sim::nontrivial();
}

// Lloyd's iteration in double precision; safe: no sample was ever close to a tie
template <typename T>
struct Ref {
    std::vector<double> c;
    bool                safe      = true;
    bool                converged = false;
    bool                empty     = false;
};
template <typename T>
Ref<T> reference(const std::vector<T>& v, std::size_t d, const std::vector<T>& start, std::size_t iters) {
    Ref<T>            r;
    const std::size_t n = v.size() / d, k = start.size() / d;
    r.c.assign(start.begin(), start.end());
    const double scale = max_abs(v) + max_abs(start);
    const double gap   = scale * eps_of<T>() * double(n + 8) * 64;
    for (std::size_t it = 0; it < iters; ++it) {
        std::vector<double>      sum(k * d);
        std::vector<std::size_t> cnt(k);
        for (std::size_t i = 0; i < n; ++i) {
            const auto b = nearest(&v[i * d], r.c, d);
            if (!(b.d2 - b.d1 > gap)) r.safe = false;
            ++cnt[b.index];
            for (std::size_t j = 0; j < d; ++j) sum[b.index * d + j] += double(v[i * d + j]);
        }
        std::vector<double> next = r.c;
        for (std::size_t c = 0; c < k; ++c) {
            if (!cnt[c]) {
                r.empty = true;
                continue;
            }
            for (std::size_t j = 0; j < d; ++j) next[c * d + j] = sum[c * d + j] / double(cnt[c]);
        }
        if (next == r.c) {
            r.converged = true;
            break;
        }
        r.c = next;
    }
    for (std::size_t i = 0; i < n; ++i) {
        const auto b = nearest(&v[i * d], r.c, d);
        if (!(b.d2 - b.d1 > gap)) r.safe = false;
    }
    return r;
}

template <template <typename> class Algo, typename T>
void refinement() {
    Far               far(3);
    const std::size_t n = far("n_samples", 1, sim_tier() ? 48 : 30, 160, 300, 1500), d = far("n_features", 1, 4, 40);
    const std::size_t k = far("n_clusters", 1, std::min<std::size_t>(n, 7), std::min<std::size_t>(n, 24), far.huge && !far.giant && sim::pick("many", 0, 3) == 0 ? 270 : 0);
    sim::Rng          g = sim::rng("data");
    const unsigned    shape = pick_shape();
    std::vector<T>    v     = make_values<T>(n, d, shape, g);
    const auto        keep  = v;
    using KM                = ffcl::KMeans<T>;
    static const std::size_t iters[] = {0, 1, 2, 3, 6, 60};
    const std::size_t        iter    = iters[sim::pick("max_iter", 0, 5)];
    // the start: samples, random seeding, or positions somewhere else (which leave clusters empty)
    std::vector<T> start;
    switch (sim::pick("start", 0, 3)) {
        case 0:
            for (std::size_t i = 0; i < k; ++i) {
                const std::size_t s = g.below(n);
                start.insert(start.end(), v.begin() + s * d, v.begin() + s * d + d);
            }
            break;
        case 1: start = ffcl::kmeansplusplus::make_centroids(v.begin(), v.end(), d, k); break;
        case 2: start = ffcl::common::math::random::init_spatial_uniform(v.begin(), v.end(), d, k); break;
        default: start = make_values<T>(k, d, unsigned(g.below(LAST_SHAPE + 1)), g); break;
    }
    typename KM::Options o;
    o.max_iter(iter).early_stopping(sim::pick("early_stopping", 0, 1) != 0).patience(sim::pick("patience", 0, 1));
    sim::set_team(unsigned(sim::pick("team", 1, 4)));
    KM             m(k, start, o);
    std::vector<T> got = fit_with<Algo>(m, v, d);
    SIM_CHECK(v == keep, "fitting changed the dataset");
    SIM_CHECK(got.size() == k * d, "fit returned %zu values for %zu centroids of %zu features", got.size(), k, d);
    for (auto x : got) SIM_CHECK(std::isfinite(double(x)), "fit returned a centroid coordinate that is not finite");
    const double scale = max_abs(v) + max_abs(start);
    const double pos   = scale * eps_of<T>() * double(n + 4) * 8;  // coordinate uncertainty
    const double s0 = sse(v, d, start), s1 = sse(v, d, got);
    SIM_CHECK(s1 <= s0 * (1 + 10 * rel<T>()) + double(n) * (pos * pos + pos * std::sqrt(s0 / double(n))) * 4,
              "refinement worsened the clustering: squared deviation %.9g -> %.9g", s0, s1);
    const auto r = reference(v, d, start, iter);
    if (r.safe) {
        for (std::size_t i = 0; i < k * d; ++i)
            SIM_CHECK(std::fabs(double(got[i]) - r.c[i]) <= pos * 4,
                      "centroid %zu feature %zu is %.9g after %zu iterations, the definition gives %.9g%s", i / d, i % d,
                      double(got[i]), iter, r.c[i], r.empty ? " (a cluster was empty on the way)" : "");
        sim::nontrivial();
        if (r.empty) sim::count_fault("empty_cluster_reached", 1);
    }
    if (iter >= 60) {
        // refinement came to rest: every used centroid is the mean of the samples nearest to it
        const auto one = reference(v, d, got, 1);
        if (one.safe) {
            for (std::size_t i = 0; i < k * d; ++i)
                SIM_CHECK(std::fabs(double(got[i]) - one.c[i]) <= pos * 4,
                          "refinement came to rest but centroid %zu feature %zu is %.9g while the mean of its samples is %.9g",
                          i / d, i % d, double(got[i]), one.c[i]);
            sim::nontrivial();
        }
    }
    // a second fit continues from the model's centroids
    if (sim::pick("refit", 0, 2) == 0) {
        std::vector<T> again = m.template fit<Algo>(v.begin(), v.end(), d);
        const double   s2    = sse(v, d, again);
        SIM_CHECK(s2 <= s1 * (1 + 10 * rel<T>()) + double(n) * (pos * pos + pos * std::sqrt(s1 / double(n))) * 4,
                  "fitting again worsened the clustering: squared deviation %.9g -> %.9g", s1, s2);
        if (r.safe && r.converged)
            for (std::size_t i = 0; i < k * d; ++i)
                SIM_CHECK(std::fabs(double(again[i]) - double(got[i])) <= pos * 8,
                          "fitting a settled model again moved centroid %zu", i / d);
        got = again;
    }
    // and goes on with other samples, as many or not
    if (sim::pick("move_on", 0, 3) == 0) {
        const std::size_t n2    = sim::pick("as_many", 0, 1) ? n : 1 + g.below(n + 4);
        std::vector<T>    other = make_values<T>(n2, d, unsigned(g.below(LAST_SHAPE + 1)), g);
        const double      sc2   = max_abs(other) + max_abs(got);
        const double      pos2  = sc2 * eps_of<T>() * double(n2 + 4) * 8;
        const double      a     = sse(other, d, got);
        const auto        ref2  = reference(other, d, got, iter);
        std::vector<T>    next  = fit_with<Algo>(m, other, d);
        SIM_CHECK(next.size() == k * d, "fitting other samples returned %zu values for %zu centroids of %zu features", next.size(), k, d);
        for (auto x : next) SIM_CHECK(std::isfinite(double(x)), "fitting other samples returned a centroid coordinate that is not finite");
        const double b = sse(other, d, next);
        SIM_CHECK(b <= a * (1 + 10 * rel<T>()) + double(n2) * (pos2 * pos2 + pos2 * std::sqrt(a / double(n2))) * 4,
                  "fitting other samples worsened their clustering: squared deviation %.9g -> %.9g", a, b);
        if (ref2.safe)
            for (std::size_t i = 0; i < k * d; ++i)
                SIM_CHECK(std::fabs(double(next[i]) - ref2.c[i]) <= pos2 * 4, "after other samples centroid %zu is %.9g, the definition gives %.9g", i / d, double(next[i]), ref2.c[i]);
        got = next;
    }
    // concurrent assignment with the fitted model, also of samples never seen
    const std::size_t                  nq = sim::pick("n_queries", 1, 8);
    std::vector<std::vector<T>>        sets{v, make_values<T>(nq, d, shape, g), make_values<T>(nq, d, shape, g)};
    std::vector<std::function<void()>> jobs;
    const unsigned                     callers = unsigned(sim::pick("callers", 1, 3)), rounds = unsigned(sim::pick("rounds", 1, 3));
    const KM&                          cm      = m;
    // as many samples as the model was fitted on, but other ones
    if (rounds > 1 && n <= 64) sets.push_back(make_values<T>(n, d, pick_shape("other shape"), g));
    auto assign = [&](std::vector<T>& x) {
        const auto lab = cm.predict(x.begin(), x.end(), d);
        const auto dst = cm.forward(x.begin(), x.end(), d);
        SIM_CHECK(lab.size() == x.size() / d && dst.size() == lab.size(), "assignment returned %zu values for %zu samples",
                  lab.size(), x.size() / d);
        for (std::size_t i = 0; i < lab.size(); ++i) {
            const auto   b = nearest(&x[i * d], got, d);
            const double e = (max_abs(x) + max_abs(got) + scale) * eps_of<T>() * 32;
            SIM_CHECK(lab[i] < k && ref_distance(&x[i * d], &got[lab[i] * d], d) <= b.d1 + e,
                      "sample %zu is assigned to %zu which is not its nearest centroid", i, lab[i]);
            SIM_CHECK(std::fabs(double(dst[i]) - b.d1) <= e, "distance of sample %zu is %g, expected %g", i,
                      double(dst[i]), b.d1);
        }
    };
    for (unsigned c = 0; c < callers; ++c) {
        std::vector<std::size_t> order;
        for (unsigned i = 0; i < rounds; ++i) order.push_back(c + i == 0 ? 0 : g.below(sets.size()));
        jobs.push_back([&, order] {
            for (auto i : order) assign(sets[i]);
        });
    }
    if (callers > 1)
        sim::concurrently(jobs, 5);
    else
        jobs[0]();
    for (auto& x : sets)
        if (rounds > 1 && overwrite(x, x.size() / d, d, g)) assign(x);
    sim::note_state(hash_values(got));
}
}  // namespace

SIM_SCENARIO(P03, hamerly_float, 3) { multistart<ffcl::Hamerly, float>(); }
SIM_SCENARIO(P03, lloyd_float, 3) { multistart<ffcl::Lloyd, float>(); }
SIM_SCENARIO(P03, lloyd_double, 1) { multistart<ffcl::Lloyd, double>(); }
SIM_SCENARIO(P03, hamerly_double, 1) { multistart<ffcl::Hamerly, double>(); }

SIM_SCENARIO(P04, lloyd_float, 3) { refinement<ffcl::Lloyd, float>(); }
SIM_SCENARIO(P04, hamerly_float, 3) { refinement<ffcl::Hamerly, float>(); }
SIM_SCENARIO(P04, lloyd_double, 1) { refinement<ffcl::Lloyd, double>(); }
SIM_SCENARIO(P04, hamerly_double, 1) { refinement<ffcl::Hamerly, double>(); }
