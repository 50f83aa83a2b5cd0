// P12: DBSCAN against the density definition.
#include "tree.hpp"

#include "ffcl/dbscan/DBSCAN.hpp"

namespace {
using namespace scn;

template <typename T>
struct Case {
    std::vector<T> data;
    std::size_t    n = 1, d = 1, min_samples = 1;
    double         radius = 1;
};
template <typename T>
double dist(const Case<T>& c, std::size_t a, std::size_t b) {
    return ref_distance(c.data.data() + a * c.d, c.data.data() + b * c.d, c.d);
}
// A radius that no distance comes close to, except on small integers where distances are exact.
template <typename T>
void draw_radius(Case<T>& c, unsigned shape, sim::Rng& g) {
    std::vector<double> v;
    for (std::size_t i = 0; i < c.n; ++i)
        for (std::size_t j = 0; j < i; ++j) v.push_back(dist(c, i, j));
    std::sort(v.begin(), v.end());
    if (shape == GRID && g.below(2)) {
        c.radius = double(1 + g.below(4));  // equal to many distances: those samples are outside
        return;
    }
    std::vector<double> gaps;
    for (std::size_t i = 1; i < v.size(); ++i)
        if (v[i] - v[i - 1] > 10 * rel<T>() * v[i] && v[i] > 1e-16) gaps.push_back(0.5 * (v[i] + v[i - 1]));
    if (!v.empty() && v.back() > 0) gaps.push_back(v.back() * 1.5);
    if (gaps.empty()) gaps.push_back(1.0);
    // mostly short radii, where the structure is
    const std::size_t lim = g.below(4) ? (gaps.size() + 2) / 3 : gaps.size();
    c.radius              = gaps[g.below(lim)];
}
template <typename T>
Case<T> draw(sim::Rng& g, std::size_t cap) {
    Case<T>        c;
    const unsigned shape = unsigned(sim::pick("shape", 0, LAST_SHAPE));
    Far far(2);
    c.n                  = far("n", 1, cap, std::min<std::size_t>(cap * 4, 160), 280, 600);
    c.d                  = far("d", 1, 3, 36);
    c.data               = make_values<T>(c.n, c.d, shape, g);
    draw_radius(c, shape, g);
    c.min_samples = sim::pick("min_samples", 0, g.below(4) ? 4 : c.n + 1);
    if (far.huge && g.below(2)) {  // as many clusters as there can be
        double least = std::numeric_limits<double>::infinity();
        for (std::size_t i = 0; i < c.n; ++i)
            for (std::size_t j = 0; j < i; ++j)
                if (dist(c, i, j) > 0) least = std::min(least, dist(c, i, j));
        if (least < 1e30) c.radius = least * 0.5;
        c.min_samples = 0;
    }
    return c;
}
template <typename T>
std::vector<std::size_t> predict(Case<T>& c, const TreeSpec& spec, ffcl::DBSCAN<typename Space<T>::Tree>* reuse = nullptr, bool options = true) {
    using Tree = typename Space<T>::Tree;
    using Alg  = ffcl::DBSCAN<Tree>;
    auto idx   = all_indices(c.n);
    Alg  own;
    Alg& alg = reuse ? *reuse : own;
    if (options) alg.set_options(typename Alg::Options().min_samples(c.min_samples).radius(T(c.radius)));
    const auto l = alg.predict(make_index<T>(idx, c.data, c.d, spec));
    return std::vector<std::size_t>(l.begin(), l.end());
}
template <typename T>
void check_labels(const Case<T>& c, const std::vector<std::size_t>& l, const char* what) {
    SIM_CHECK(l.size() == c.n, "%s: %zu labels for %zu samples", what, l.size(), c.n);
    const double                          r = double(T(c.radius));
    std::vector<std::vector<std::size_t>> nb(c.n);
    std::vector<char>                     core(c.n, 0);
    for (std::size_t i = 0; i < c.n; ++i) {
        for (std::size_t j = 0; j < c.n; ++j)
            if (dist(c, i, j) < r) nb[i].push_back(j);
        core[i] = nb[i].size() > c.min_samples;
    }
    // groups of dense samples
    std::vector<std::size_t> comp(c.n, c.n);
    std::size_t              ncomp = 0;
    for (std::size_t i = 0; i < c.n; ++i) {
        if (!core[i] || comp[i] != c.n) continue;
        std::vector<std::size_t> stack{i};
        comp[i] = ncomp;
        while (!stack.empty()) {
            const auto u = stack.back();
            stack.pop_back();
            for (auto v : nb[u])
                if (core[v] && comp[v] == c.n) comp[v] = ncomp, stack.push_back(v);
        }
        ++ncomp;
    }
    std::vector<std::size_t> label(ncomp, 0);
    std::set<std::size_t>    used;
    for (std::size_t i = 0; i < c.n; ++i) {
        SIM_CHECK(l[i] <= ncomp, "%s: sample %zu has label %zu, there are %zu clusters", what, i, l[i], ncomp);
        if (!core[i]) continue;
        SIM_CHECK(l[i] != 0, "%s: the dense sample %zu is labelled noise", what, i);
        if (!label[comp[i]]) {
            label[comp[i]] = l[i];
            SIM_CHECK(used.insert(l[i]).second, "%s: two clusters that no chain of dense samples joins share the label %zu", what, l[i]);
        }
        SIM_CHECK(label[comp[i]] == l[i], "%s: dense samples joined by a chain have the labels %zu and %zu", what, label[comp[i]], l[i]);
    }
    for (std::size_t i = 0; i < c.n; ++i) {
        if (core[i]) continue;
        std::set<std::size_t> near_by;
        for (auto j : nb[i])
            if (core[j]) near_by.insert(l[j]);
        if (near_by.empty())
            SIM_CHECK(l[i] == 0, "%s: sample %zu is close to no dense sample and has the label %zu", what, i, l[i]);
        else
            SIM_CHECK(near_by.count(l[i]) == 1, "%s: sample %zu next to a cluster has the label %zu, which is not that of a cluster next to it", what, i, l[i]);
    }
    if (ncomp > 0 && c.n > 2) sim::nontrivial();
}

template <typename T>
void labels_run() {
    sim::Rng       g     = sim::rng("dbscan");
    Case<T>        c     = draw<T>(g, sim_tier() ? 80 : (sim::pick("big", 0, 4) == 0 ? 40 : 16));
    const auto     data0 = c.data;
    const TreeSpec a = draw_spec(g, c.n, c.d), b = draw_spec(g, c.n, c.d);
    pick_entropy();
    const auto la = predict(c, a);
    SIM_CHECK(c.data == data0, "clustering changed the dataset");
    check_labels(c, la, "dbscan");
    SIM_CHECK(predict(c, a) == la, "predicting again gives other labels");
    SIM_CHECK(predict(c, b) == la, "an index built with other options gives other labels");
    sim::note_state(hash_values(la));
}
// one object clusters several datasets in turn
template <typename T>
void labels_reuse() {
    sim::Rng             g  = sim::rng("dbscan");
    const std::size_t    m  = sim::pick("datasets", 2, 3);
    const bool           as_many = sim::pick("as_many", 0, 1) == 1, once = sim::pick("options_once", 0, 1) == 1;
    std::vector<Case<T>> cs;
    for (std::size_t i = 0; i < m; ++i) {
        cs.push_back(draw<T>(g, 14));
        if (i && as_many) {
            cs[i].n    = cs[0].n;
            cs[i].d    = cs[0].d;
            cs[i].data = make_values<T>(cs[i].n, cs[i].d, GRID, g);
            cs[i].radius = double(1 + g.below(3));
        }
    }
    if (once)  // the radius of the first is good for every grid
        for (std::size_t i = 1; i < m; ++i) {
            cs[i].data = make_values<T>(cs[i].n, cs[i].d, GRID, g);
            cs[i].radius = cs[0].radius = double(1 + g.below(3)) + 0.3;
            cs[i].min_samples = cs[0].min_samples;
        }
    if (once) {
        cs[0].data = make_values<T>(cs[0].n, cs[0].d, GRID, g);
        for (auto& c : cs) c.radius = cs[0].radius;
    }
    pick_entropy();
    ffcl::DBSCAN<typename Space<T>::Tree> alg;
    const std::size_t                     steps = sim::pick("steps", 2, 5);
    std::vector<std::vector<std::size_t>> first(m);
    for (std::size_t s = 0; s < steps; ++s) {
        const std::size_t i = g.below(m);
        if ((once || as_many) && overwrite(cs[i].data, cs[i].n, cs[i].d, g, GRID)) {
            first[i].clear();
            if (!once) cs[i].radius = double(1 + g.below(3)) + 0.3;
        }
        const auto l = predict(cs[i], draw_spec(g, cs[i].n, cs[i].d), &alg, !once || s == 0);
        check_labels(cs[i], l, "dbscan with an object used before");
        if (!first[i].empty()) SIM_CHECK(first[i] == l, "clustering a dataset again with the same object gives other labels");
        first[i] = l;
        sim::note_state(hash_values(l));
    }
}
template <typename T>
void labels_threads() {
    sim::Rng              g  = sim::rng("dbscan");
    Case<T>               c  = draw<T>(g, 12);
    const std::size_t     nt = sim::pick("threads", 2, 3);
    std::vector<Case<T>>  cs(nt, c);
    std::vector<TreeSpec> specs;
    for (std::size_t t = 0; t < nt; ++t) {
        specs.push_back(draw_spec(g, c.n, c.d));
        if (g.below(2)) cs[t].min_samples = g.below(4);
    }
    // one object used by all of them, each for its own dataset
    const bool shared = sim::pick("shared", 0, 2) == 0;
    using Object      = ffcl::DBSCAN<typename Space<T>::Tree>;
    if (shared) {
        c.radius = double(1 + g.below(3)) + 0.3;
        for (auto& x : cs) {
            x.data        = make_values<T>(c.n, c.d, GRID, g);
            x.radius      = c.radius;
            x.min_samples = c.min_samples;
        }
    }
    const auto shared_alg = std::make_unique<const Object>(typename Object::Options().min_samples(c.min_samples).radius(T(c.radius)));
    std::vector<std::vector<std::size_t>> got(nt);
    std::vector<std::function<void()>>    jobs;
    for (std::size_t t = 0; t < nt; ++t) jobs.push_back([&, t] {
        // the dataset is shared, the parameters are not
        using Tree = typename Space<T>::Tree;
        using Alg  = ffcl::DBSCAN<Tree>;
        auto      idx = all_indices(c.n);
        const Alg own(typename Alg::Options().min_samples(cs[t].min_samples).radius(T(cs[t].radius)));
        const Alg& alg = shared ? *shared_alg : own;
        got[t] = alg.predict(make_index<T>(idx, shared ? cs[t].data : c.data, c.d, specs[t]));
    });
    sim::concurrently(jobs, 5);
    for (std::size_t t = 0; t < nt; ++t) {
        check_labels(cs[t], got[t], "dbscan next to other threads");
        sim::note_state(hash_values(got[t]));
    }
}
}  // namespace

SIM_SCENARIO(P12, labels, 5) { sim::pick("type", 0, 3) == 0 ? labels_run<double>() : labels_run<float>(); }
SIM_SCENARIO(P12, reuse, 2) { labels_reuse<float>(); }
SIM_SCENARIO(P12, threads, 2) { labels_threads<float>(); }
