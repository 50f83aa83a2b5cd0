// P05 k-medoids.
#include "util.hpp"

#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"

using namespace scn;

namespace {

using Dist = std::vector<std::vector<double>>;
template <typename T>
Dist distances(const std::vector<T>& v, std::size_t n, std::size_t d) {
    Dist r(n, std::vector<double>(n));
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) r[i][j] = ref_distance(&v[i * d], &v[j * d], d);
    return r;
}
double loss(const Dist& D, const std::vector<std::size_t>& m) {
    double s = 0;
    for (std::size_t i = 0; i < D.size(); ++i) {
        double b = std::numeric_limits<double>::infinity();
        for (auto x : m) b = std::min(b, D[i][x]);
        s += b;
    }
    return s;
}
// plain loops over plain memory that the simulator need not see
__attribute__((no_sanitize("thread"), noinline)) void sink(double* base, const double* row, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i)
        if (row[i] < base[i]) base[i] = row[i];
}
__attribute__((no_sanitize("thread"), noinline)) double sum_of_less(const double* base, const double* row, std::size_t n) {
    double s = 0;
    for (std::size_t i = 0; i < n; ++i) s += row[i] < base[i] ? row[i] : base[i];
    return s;
}
// every exchange of one medoid for a sample that is none: f(set, position, sample, loss)
template <typename F>
void each_swap(const Dist& D, const std::vector<std::size_t>& from, F f) {
    const std::size_t   n = D.size();
    std::vector<double> base(n);
    for (std::size_t i = 0; i < from.size(); ++i) {
        base.assign(n, std::numeric_limits<double>::infinity());
        for (std::size_t j = 0; j < from.size(); ++j)
            if (j != i) sink(base.data(), D[from[j]].data(), n);
        for (std::size_t c = 0; c < n; ++c)
            if (std::find(from.begin(), from.end(), c) == from.end()) f(from, i, c, sum_of_less(base.data(), D[c].data(), n));
    }
}
std::vector<std::size_t> swapped(std::vector<std::size_t> m, std::size_t i, std::size_t c) {
    m[i] = c;
    return m;
}
void check_medoids(const std::vector<std::size_t>& m, std::size_t n, std::size_t k) {
    SIM_CHECK(m.size() == k, "fit returned %zu medoids instead of %zu", m.size(), k);
    std::set<std::size_t> s;
    for (auto x : m) {
        SIM_CHECK(x < n, "medoid %zu is not a sample (the dataset has %zu)", x, n);
        SIM_CHECK(s.insert(x).second, "sample %zu was returned as a medoid twice", x);
    }
}

// the algorithm that is used when none is named
template <template <typename> class Algo>
struct Default : std::false_type {};
template <>
struct Default<ffcl::FasterPAM> : std::true_type {};

// how the model gets its input: 0 dataset with matrix, 1 dataset without matrix, 2 caller's matrix
template <template <typename> class Algo, typename T>
struct Runner {
    std::vector<T>& v;
    std::size_t     n, d, k;
    using It     = typename std::vector<T>::iterator;
    using Matrix = ffcl::datastruct::PairwiseDistanceMatrix<It>;
    template <typename Opt>
    static void copy(Opt& o, const std::size_t* q) {
        o.max_iter(q[0]).early_stopping(q[1] != 0).patience(q[2]).n_init(q[3]);
    }
    template <typename M, typename... A>
    static std::vector<std::size_t> fitted(M& m, A... a) {
        if (Default<Algo>::value && sim::pick("unnamed", 0, 1)) return m.fit(a...);
        return m.template fit<Algo>(a...);
    }
    // q: max_iter, early_stopping, patience, n_init
    std::vector<std::size_t> fit(unsigned how, const std::vector<std::size_t>& start, const std::size_t* q, bool refit) {
        return how == 1 ? go<false>(how, start, q, refit) : go<true>(how, start, q, refit);
    }
    template <bool Pre>
    std::vector<std::size_t> go(unsigned how, const std::vector<std::size_t>& start, const std::size_t* q, bool refit) {
        using KM = ffcl::KMedoids<T, Pre>;
        typename KM::Options o;
        copy(o, q);
        KM a(k, o), b(k, start, o);
        KM& m = start.empty() ? a : b;
        std::vector<std::size_t> r;
        if (how == 2) {
            Matrix D(v.begin(), v.end(), d);
            if (Default<Algo>::value && sim::pick("unnamed", 0, 1))
                r = m.fit(D);
            else
                r = m.template fit<Algo>(D);
            if (refit) r = m.template fit<Algo>(D);
            assign(m, D, r);
        } else {
            r = fitted(m, v.begin(), v.end(), d);
            if (refit) r = m.template fit<Algo>(v.begin(), v.end(), d);
            assign(m, r);
        }
        return r;
    }
    void check(const std::vector<std::size_t>& lab, const std::vector<T>& dst, const std::vector<std::size_t>& r) {
        SIM_CHECK(lab.size() == n && dst.size() == n, "assignment returned %zu/%zu values for %zu samples", lab.size(),
                  dst.size(), n);
        for (std::size_t i = 0; i < n; ++i) {
            double best = std::numeric_limits<double>::infinity();
            for (auto x : r) best = std::min(best, ref_distance(&v[i * d], &v[x * d], d));
            SIM_CHECK(lab[i] < r.size(), "sample %zu is assigned to medoid %zu of %zu", i, lab[i], r.size());
            const double got = ref_distance(&v[i * d], &v[r[lab[i]] * d], d);
            SIM_CHECK(near(got, best, rel<T>(), 1e-30), "sample %zu is assigned to a medoid at distance %g, the nearest is at %g", i, got, best);
            SIM_CHECK(near(double(dst[i]), best, rel<T>(), 1e-30), "the reported distance of sample %zu is %g, expected %g", i, double(dst[i]), best);
        }
    }
    template <typename M>
    void assign(M& m, const std::vector<std::size_t>& r) {
        const M&   cm  = m;
        auto       job = [&] { check(cm.predict(v.begin(), v.end(), d), cm.forward(v.begin(), v.end(), d), r); };
        if (callers > 1)
            sim::concurrently(std::vector<std::function<void()>>(callers, job), 3);
        else
            job();
        // the same medoids with other values of the samples
        sim::Rng g = sim::rng("assigned again");
        if (g.below(3)) return;
        const auto keep = v;
        if (overwrite(v, n, d, g)) check(cm.predict(v.begin(), v.end(), d), cm.forward(v.begin(), v.end(), d), r);
        std::copy(keep.begin(), keep.end(), v.begin());
    }
    template <typename M>
    void assign(M& m, const Matrix& D, const std::vector<std::size_t>& r) {
        const M&   cm  = m;
        auto       job = [&] { check(cm.predict(D), cm.forward(D), r); };
        if (callers > 1)
            sim::concurrently(std::vector<std::function<void()>>(callers, job), 3);
        else
            job();
    }
    unsigned callers = 1;
};

template <template <typename> class Algo, typename T, bool Pam>
void medoids(bool many = false) {
    Far               far(3);
    const std::size_t n = many ? sim::pick("n_samples", 14, 34) : far("n_samples", 3, sim_tier() ? 36 : 22, 60, 270), d = far("n_features", 1, 3, 36);
    const std::size_t k     = many ? sim::pick("n_medoids", 8, std::min<std::size_t>(n - 1, 20)) : far("n_medoids", 2, std::min<std::size_t>(n - 1, 6), std::min<std::size_t>(n - 1, 24));
    sim::Rng          g     = sim::rng("data");
    const unsigned    shape = pick_shape();
    std::vector<T>    v     = make_values<T>(n, d, shape, g);
    const auto        keep  = v;
    const auto        D     = distances(v, n, d);
    double            maxd  = 0;
    for (auto& r : D)
        for (auto x : r) maxd = std::max(maxd, x);
    const double eps   = std::is_floating_point<T>::value ? double(std::numeric_limits<T>::epsilon()) : 0.0;
    double       maxv  = 0;
    for (auto x : v) maxv = std::max(maxv, std::fabs(double(x)));
    // what rounding in the element type may hide
    const double slack = 4 * eps * double(n) * double(n) * (maxd + 0.05 * maxv) + 1e-9 * maxd;
    static const std::size_t iters[] = {0, 1, 2, 500, 500, 500};
    std::size_t              q[4]    = {iters[sim::pick("max_iter", 0, 5)], sim::pick("early_stopping", 0, 5) != 0,
                                        sim::pick("patience", 0, 1), 1};
    if (!q[1] && q[0] > 30) q[0] = 30;
    if (!Pam && q[0] > 60) q[0] = 60;
    const unsigned how = unsigned(sim::pick("input", 0, 2));
    Runner<Algo, T> run{v, n, d, k};
    run.callers         = unsigned(sim::pick("callers", 1, 3));
    const unsigned team = pick_team();
    sim::set_team(team);
    std::vector<std::size_t> got;
    const double             lossgap = slack;
    if (sim::pick("given_start", 0, 1)) {
        // a known start, spread over the samples; sometimes the first ones
        std::vector<std::size_t> all(n), start;
        std::iota(all.begin(), all.end(), 0);
        if (sim::pick("first_samples", 0, 3))
            for (std::size_t i = 0; i < k; ++i) std::swap(all[i], all[i + g.below(n - i)]);
        start.assign(all.begin(), all.begin() + k);
        const bool refit = sim::pick("refit", 0, 3) == 0;
        got              = run.fit(how, start, q, refit);
        check_medoids(got, n, k);
        if (Pam) {
            const double l0 = loss(D, start), l1 = loss(D, got);
            SIM_CHECK(l1 <= l0 + lossgap, "fitting worsened the total distance from %.9g to %.9g", l0, l1);
        }
    } else {
        q[3] = sim::pick("n_init", 1, n * k > 150 ? 2 : 6);
        const uint64_t stream = sim::pick("stream", 1, 1000000);
        sim::fresh(stream, [&] { got = run.fit(how, {}, q, false); });
        check_medoids(got, n, k);
        // the same restarts one at a time, drawn from the same stream, with one worker
        std::vector<std::vector<std::size_t>> single;
        std::size_t                           one[4] = {q[0], q[1], q[2], 1};
        run.callers                                  = 1;
        sim::set_team(1);
        sim::fresh(stream, [&] {
            for (std::size_t i = 0; i < q[3]; ++i) single.push_back(run.fit(how, {}, one, false));
        });
        bool   found = false;
        double best  = std::numeric_limits<double>::infinity();
        for (auto& s : single) {
            check_medoids(s, n, k);
            found = found || s == got;
            best  = std::min(best, loss(D, s));
        }
        SIM_CHECK(found, "the medoids returned by %zu restarts are not those of any of the restarts run alone", q[3]);
        if (Pam) {
            SIM_CHECK(loss(D, got) <= best + lossgap, "%zu restarts returned total distance %.9g although one of them reaches %.9g",
                      q[3], loss(D, got), best);
        }
        std::vector<std::size_t> again;
        sim::set_team(1);
        sim::fresh(stream, [&] { again = run.fit(how, {}, q, false); });
        SIM_CHECK(again == got, "the result depends on the number of workers or their schedule");
    }
    SIM_CHECK(v == keep, "fitting changed the dataset");
    if (Pam && q[0] >= 500 && q[1]) {
        // it stopped by itself
        const double l = loss(D, got);
        // In floating point an exchange that changes nothing may look like an improvement by rounding, and a pass may
        // end where it began after some of those.  So a sample counts as refused when it is of no use to some medoid
        // set that ties with the result.
        std::vector<std::vector<std::size_t>> ties{got};
        if (eps > 0)
            for (std::size_t at = 0; at < ties.size() && ties.size() < 60; ++at) each_swap(D, std::vector<std::size_t>(ties[at]), [&](auto& m, std::size_t i, std::size_t c, double x) {
                    if (std::fabs(x - l) > slack) return;
                    auto t = swapped(m, i, c);
                    if (std::find(ties.begin(), ties.end(), t) == ties.end()) ties.push_back(t);
                });
        std::vector<std::size_t> useful(n);
        std::string              what;
        for (auto& t : ties) {
            std::set<std::size_t> here;
            each_swap(D, t, [&](auto& m, std::size_t at, std::size_t c, double x) {
                if (x >= l - slack) return;
                here.insert(c);
                if (!what.empty()) return;
                for (auto i : swapped(m, at, c)) what += " " + std::to_string(i);
                what += " gives " + std::to_string(x);
            });
            for (auto c : here) ++useful[c];
        }
        for (std::size_t c = 0; c < n; ++c)
            SIM_CHECK(useful[c] < ties.size(), "refinement stopped with total distance %.9g although exchanging one medoid for another sample:%s",
                  l, what.c_str());
        sim::nontrivial();
    } else if (!Pam) {
        sim::nontrivial();
    }
    sim::note_state(hash_values(got));
}
}  // namespace

SIM_SCENARIO(P05, pam_float, 4) { medoids<ffcl::FasterPAM, float, true>(); }
SIM_SCENARIO(P05, pam_many, 1) { medoids<ffcl::FasterPAM, float, true>(true); }
SIM_SCENARIO(P05, pam_double, 2) { medoids<ffcl::FasterPAM, double, true>(); }
SIM_SCENARIO(P05, pam_int, 2) { medoids<ffcl::FasterPAM, int, true>(); }
SIM_SCENARIO(P05, msc_float, 2) { medoids<ffcl::FasterMSC, float, false>(); }
SIM_SCENARIO(P05, msc_double, 1) { medoids<ffcl::FasterMSC, double, false>(); }
