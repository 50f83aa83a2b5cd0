// P13: minimum spanning trees and the union-find behind them.
#include "tree.hpp"

#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp"

namespace {
using namespace scn;

template <typename T>
using Edges = ffcl::datastruct::mst::EdgesList<std::size_t, T>;

template <typename T>
struct Problem {
    std::vector<T> data;
    std::size_t    n = 2, d = 1;
};
template <typename T>
double dist(const Problem<T>& p, std::size_t a, std::size_t b) {
    return ref_distance(p.data.data() + a * p.d, p.data.data() + b * p.d, p.d);
}
// distance to the k-th nearest sample, the sample itself included
template <typename T>
std::vector<double> core_distances(const Problem<T>& p, std::size_t k) {
    std::vector<double> c(p.n, 0.0);
    if (k <= 1) return c;
    for (std::size_t i = 0; i < p.n; ++i) {
        std::vector<double> v;
        for (std::size_t j = 0; j < p.n; ++j) v.push_back(dist(p, i, j));
        std::sort(v.begin(), v.end());
        c[i] = v[std::min(k, p.n) - 1];
    }
    return c;
}
template <typename T>
double reach(const Problem<T>& p, const std::vector<double>& core, std::size_t a, std::size_t b) {
    return std::max({core[a], core[b], dist(p, a, b)});
}
template <typename T>
double prim(const Problem<T>& p, const std::vector<double>& core) {
    std::vector<double> best(p.n, std::numeric_limits<double>::infinity());
    std::vector<char>   in(p.n, 0);
    double              total = 0;
    best[0]                   = 0;
    for (std::size_t s = 0; s < p.n; ++s) {
        std::size_t u = p.n;
        for (std::size_t i = 0; i < p.n; ++i)
            if (!in[i] && (u == p.n || best[i] < best[u])) u = i;
        in[u] = 1;
        total += best[u];
        for (std::size_t i = 0; i < p.n; ++i)
            if (!in[i]) best[i] = std::min(best[i], reach(p, core, u, i));
    }
    return total;
}
template <typename T>
void check_tree(const Problem<T>& p, const Edges<T>& mst, std::size_t k, bool minimal, const char* what) {
    SIM_CHECK(mst.size() + 1 == p.n, "%s: %zu edges for %zu samples", what, mst.size(), p.n);
    const auto               core = core_distances(p, k);
    std::vector<std::size_t> comp = all_indices(p.n);
    double                   total = 0;
    for (const auto& e : mst) {
        const std::size_t a = std::get<0>(e), b = std::get<1>(e);
        SIM_CHECK(a < p.n && b < p.n, "%s: edge %zu-%zu outside the dataset", what, a, b);
        SIM_CHECK(comp[a] != comp[b], "%s: edge %zu-%zu closes a cycle", what, a, b);
        const auto from = comp[b], to = comp[a];
        for (auto& c : comp)
            if (c == from) c = to;
        const double want = reach(p, core, a, b);
        SIM_CHECK(near(double(std::get<2>(e)), want, rel<T>(), 1e-30), "%s: edge %zu-%zu labelled %.9g instead of %.9g", what, a, b, double(std::get<2>(e)), want);
        total += double(std::get<2>(e));
    }
    if (!minimal) return;
    const double best = prim(p, core);
    SIM_CHECK(near(total, best, rel<T>(), 1e-30), "%s (k=%zu, %zu samples): total length %.9g, the minimum is %.9g", what, k, p.n, total, best);
}

template <typename T>
Edges<T> build(Problem<T>& p, const TreeSpec& spec, std::size_t k, unsigned how, const ffcl::BoruvkasAlgorithm<typename Space<T>::Tree>* reuse = nullptr) {
    auto idx  = all_indices(p.n);
    using Tree = typename Space<T>::Tree;
    using Alg  = ffcl::BoruvkasAlgorithm<Tree>;
    if (reuse) {
        auto tree = make_index<T>(idx, p.data, p.d, spec);
        return how == 2 ? reuse->make_tree_2(std::move(tree)) : how == 0 ? reuse->make_tree(tree) : reuse->make_tree(std::move(tree));
    }
    Alg alg;
    alg.set_options(typename Alg::Options().k_nearest_neighbors(k));
    auto tree = make_index<T>(idx, p.data, p.d, spec);
    if (how == 0) return alg.make_tree(tree);
    if (how == 1) return alg.make_tree(std::move(tree));
    return alg.make_tree_2(std::move(tree));
}
template <typename T>
Problem<T> draw(sim::Rng& g, std::size_t cap) {
    Problem<T> p;
    Far far(2);
    p.n = far("n", 1, cap, cap * 5 / 2, 270);
    p.d = far("d", 1, 3, 36);
    p.data = make_values<T>(p.n, p.d, unsigned(sim::pick("shape", 0, LAST_SHAPE)), g);
    return p;
}
template <typename T>
void tree_run() {
    sim::Rng          g = sim::rng("mst");
    Problem<T>        p = draw<T>(g, sim_tier() ? 60 : (sim::pick("big", 0, 5) == 0 ? 40 : 14));
    const auto        data0 = p.data;
    const unsigned    how   = unsigned(sim::pick("how", 0, 2));
    const std::size_t k     = how == 2 ? 1 : sim::pick("k", 1, sim::pick("many", 0, 7) == 7 ? 20 : 5);
    const TreeSpec    spec  = draw_spec(g, p.n, p.d);
    pick_entropy();
    const auto mst = build(p, spec, k, how);
    SIM_CHECK(p.data == data0, "building a spanning tree changed the dataset");
    check_tree(p, mst, k, true, how == 2 ? "dual-tree spanning tree" : k > 1 ? "mutual reachability spanning tree" : "spanning tree");
    // sorting keeps the edges and orders them
    auto sorted = ffcl::datastruct::mst::sort_copy(mst);
    SIM_CHECK(ffcl::datastruct::mst::sort(Edges<T>(mst)) == sorted, "sort and sort_copy disagree");
    for (std::size_t i = 1; i < sorted.size(); ++i) SIM_CHECK(std::get<2>(sorted[i - 1]) <= std::get<2>(sorted[i]), "sorted edges are out of order");
    check_tree(p, sorted, k, true, "sorted spanning tree");
    uint64_t h = k;
    for (const auto& e : sorted) h = sim::mix(h, std::get<0>(e) * 131 + std::get<1>(e));
    sim::note_state(h);
    if (p.n > 2) sim::nontrivial();
}
// one object builds the trees of several datasets in turn, or at the same time
template <typename T>
void tree_reuse() {
    sim::Rng                g = sim::rng("mst");
    const std::size_t       m = sim::pick("datasets", 2, 3), k = sim::pick("k", 1, 4);
    const bool              as_many = sim::pick("as_many", 0, 1) == 1, together = sim::pick("together", 0, 2) == 0;
    std::vector<Problem<T>> ps;
    for (std::size_t i = 0; i < m; ++i) {
        ps.push_back(draw<T>(g, 12));
        if (i && as_many) {
            ps[i].n    = ps[0].n;
            ps[i].d    = ps[0].d;
            ps[i].data = make_values<T>(ps[i].n, ps[i].d, unsigned(g.below(LAST_SHAPE + 1)), g);
        }
    }
    pick_entropy();
    using Alg = ffcl::BoruvkasAlgorithm<typename Space<T>::Tree>;
    const Alg                          alg(typename Alg::Options().k_nearest_neighbors(k));
    const std::size_t                  steps = together ? m : sim::pick("steps", 2, 4);
    std::vector<Edges<T>>              got(steps);
    std::vector<std::size_t>           which(steps);
    std::vector<TreeSpec>              specs;
    std::vector<unsigned>              hows;
    std::vector<std::function<void()>> jobs;
    for (std::size_t s = 0; s < steps; ++s) {
        which[s] = together ? s : g.below(m);
        specs.push_back(draw_spec(g, ps[which[s]].n, ps[which[s]].d));
        hows.push_back(unsigned(g.below(k == 1 ? 3 : 2)));
        jobs.push_back([&, s] { got[s] = build(ps[which[s]], specs[s], k, hows[s], &alg); });
    }
    if (together)
        sim::concurrently(jobs, 12);
    for (std::size_t s = 0; s < steps; ++s) {
        if (!together) {
            overwrite(ps[which[s]].data, ps[which[s]].n, ps[which[s]].d, g);
            jobs[s]();
        }
        check_tree(ps[which[s]], got[s], k, true, "spanning tree built by an object used before");
        sim::note_state(got[s].size() + 31 * k);
        if (ps[which[s]].n > 2) sim::nontrivial();
    }
}
template <typename T>
void tree_threads() {
    sim::Rng          g  = sim::rng("mst");
    Problem<T>        p  = draw<T>(g, 12);
    const std::size_t nt = sim::pick("threads", 2, 3);
    std::vector<TreeSpec>    specs;
    std::vector<std::size_t> ks, hows;
    for (std::size_t t = 0; t < nt; ++t) {
        specs.push_back(draw_spec(g, p.n, p.d));
        hows.push_back(g.below(3));
        ks.push_back(hows[t] == 2 ? 1 : 1 + g.below(4));
    }
    std::vector<Edges<T>>              got(nt);
    std::vector<std::function<void()>> jobs;
    for (std::size_t t = 0; t < nt; ++t) jobs.push_back([&, t] { got[t] = build(p, specs[t], ks[t], unsigned(hows[t])); });
    sim::concurrently(jobs, 11);
    for (std::size_t t = 0; t < nt; ++t) {
        check_tree(p, got[t], ks[t], true, "spanning tree built next to others");
        sim::note_state(got[t].size() + 17 * ks[t]);
    }
    if (p.n > 2) sim::nontrivial();
}

// the union-find against naive group labels; groups read from several threads between the merges
void groups() {
    sim::Rng                                 g = sim::rng("uf");
    const std::size_t                        n = sim::pick("n", 1, sim::pick("big", 0, 7) == 7 ? 200 : 24), steps = sim::pick("steps", 1, 40);
    std::vector<std::size_t>                 comp = all_indices(n);
    ffcl::datastruct::UnionFind<std::size_t> uf(n);
    if (sim::pick("given labels", 0, 2) == 2) {
        // groups that are known from elsewhere: every sample carries the number of its group's representative
        std::vector<std::size_t> reps = all_indices(n);
        for (std::size_t i = 0; i < n; ++i) std::swap(reps[i], reps[i + g.below(n - i)]);
        reps.resize(1 + g.below(n));
        for (auto& c : comp) c = reps[g.below(reps.size())];
        for (auto r : reps) comp[r] = r;
        auto labels = std::make_unique<std::size_t[]>(n);
        std::copy(comp.begin(), comp.end(), labels.get());
        uf = ffcl::datastruct::UnionFind<std::size_t>(n, std::move(labels));
    }
    const auto& cuf = uf;
    for (std::size_t i = 0; i < n; ++i) SIM_CHECK(cuf.find(i) == comp[i], "before any merge %zu is represented by %zu, its group by %zu", i, cuf.find(i), comp[i]);
    const bool                               threads = sim::pick("readers", 0, 3) == 0;
    uint64_t                                 h       = 3;
    for (std::size_t s = 0; s < steps; ++s) {
        const std::size_t a = g.below(n), b = g.below(n);
        const std::size_t r = uf.merge(a, b);
        const auto from = comp[b], to = comp[a];
        for (auto& c : comp)
            if (c == from) c = to;
        SIM_CHECK(r < n && comp[r] == comp[a], "merging %zu and %zu reports %zu, which is in another group", a, b, r);
        SIM_CHECK(uf.find(a) == r && uf.find(b) == r, "after merging %zu and %zu they have different representatives", a, b);
        auto verify = [&] {
            for (std::size_t i = 0; i < n; ++i) {
                const std::size_t f = cuf.find(i);
                SIM_CHECK(f < n && comp[f] == comp[i] && cuf.find(f) == f, "the representative %zu of %zu is in another group", f, i);
                for (std::size_t j = 0; j < i; ++j) SIM_CHECK((cuf.find(j) == f) == (comp[i] == comp[j]), "samples %zu and %zu: grouped %d, expected %d", i, j, cuf.find(j) == f, comp[i] == comp[j]);
            }
        };
        if (threads && g.below(6) == 0)
            sim::concurrently({verify, verify}, s);
        else if (g.below(3) == 0)
            verify();
        h = sim::mix(h, r);
    }
    sim::note_state(h);
    if (n > 2) sim::nontrivial();
}
}  // namespace

SIM_SCENARIO(P13, tree, 5) { sim::pick("type", 0, 3) == 0 ? tree_run<double>() : tree_run<float>(); }
SIM_SCENARIO(P13, reuse, 2) { tree_reuse<float>(); }
SIM_SCENARIO(P13, threads, 2) { tree_threads<float>(); }
SIM_SCENARIO(P13, groups, 2) { groups(); }
