// P11: closest edges between two indexed sets, alone and from several threads on one shared searcher.
#include "tree.hpp"

#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/search/ClosestPairOfSamples.hpp"
#include "ffcl/search/Search.hpp"

namespace {
using namespace scn;

enum How { TREE, TREE_MOVED, TREE_CORE, TREE_UNION, SETS, SETS_DISTANCE, SEQUENTIAL, SIMPLE, NHOW };
const char* how_name(unsigned h) {
    static const char* n[] = {"dual tree", "dual tree (index handed over)", "dual tree with core distances", "dual tree across components", "dual set", "dual set distance", "sequential dual set", "simple dual set"};
    return n[h];
}
template <typename T>
struct Sets {
    std::vector<T>           qdata, rdata;  // the same values when the sets share a dataset
    bool                     shared = true;
    std::size_t              d      = 1;
    std::vector<std::size_t> q, r;
    std::vector<std::size_t> comp;
    ffcl::datastruct::UnionFind<std::size_t> uf{1};
};
template <typename T>
struct Edge {
    std::size_t a = 0, b = 0;
    T           w{};
    bool        named = true;
    bool        operator==(const Edge& o) const { return a == o.a && b == o.b && w == o.w && named == o.named; }
};
template <typename T, typename E>
Edge<T> edge_of(const E& e) {
    return {std::get<0>(e), std::get<1>(e), std::get<2>(e), true};
}

template <typename T, typename S>
Edge<T> ask(unsigned how, const S& searcher, Sets<T>& w, const TreeSpec& qs, std::size_t k) {
    auto q = w.q;
    auto r = w.r;
    auto& qd = w.shared ? w.rdata : w.qdata;
    namespace alg = ffcl::search::algorithms;
    const std::size_t rep = w.q.front();
    switch (how) {
        case TREE: {
            const auto tree = make_index<T>(q, qd, w.d, qs);
            return edge_of<T>(searcher.dual_tree_shortest_edge(tree, k));
        }
        case TREE_MOVED: {
            auto tree = make_index<T>(q, qd, w.d, qs);
            return edge_of<T>(searcher.dual_tree_shortest_edge(std::move(tree), k));
        }
        case TREE_CORE: {
            const auto tree = make_index<T>(q, qd, w.d, qs);
            return edge_of<T>(searcher.dual_tree_shortest_edge_with_core_distances(tree, k));
        }
        case TREE_UNION: {
            const auto  tree = make_index<T>(q, qd, w.d, qs);
            const auto& uf   = w.uf;
            return edge_of<T>(searcher.dual_tree_shortest_edge(tree, uf, rep, k));
        }
        case SETS: return edge_of<T>(alg::dual_set_shortest_edge(q.begin(), q.end(), qd.begin(), qd.end(), w.d, r.begin(), r.end(), w.rdata.begin(), w.rdata.end(), w.d, k));
        case SETS_DISTANCE: {
            Edge<T> e;
            e.named = false;
            e.w     = alg::dual_set_shortest_distance(q.begin(), q.end(), qd.begin(), qd.end(), w.d, r.begin(), r.end(), w.rdata.begin(), w.rdata.end(), w.d, k);
            return e;
        }
        case SEQUENTIAL: return edge_of<T>(alg::sequential_dual_set_shortest_edge(q.begin(), q.end(), qd.begin(), qd.end(), w.d, r.begin(), r.end(), w.rdata.begin(), w.rdata.end(), w.d, w.uf, rep));
        default: return edge_of<T>(alg::simple_dual_set_shortest_edge(q.begin(), q.end(), qd.begin(), qd.end(), w.d, r.begin(), r.end(), w.rdata.begin(), w.rdata.end(), w.d));
    }
}
template <typename T>
double pair_distance(const Sets<T>& w, std::size_t a, std::size_t b) {
    return ref_distance((w.shared ? w.rdata : w.qdata).data() + a * w.d, w.rdata.data() + b * w.d, w.d);
}
template <typename T>
void check_edge(unsigned how, const Sets<T>& w, std::size_t k, const Edge<T>& e) {
    std::vector<double> all;
    const bool          uni = how == TREE_UNION || how == SEQUENTIAL;
    const std::size_t   rep = w.q.front();
    for (auto a : w.q)
        for (auto b : w.r) {
            if (uni && w.comp[b] == w.comp[rep]) continue;
            const double x = pair_distance(w, a, b);
            if (how == SIMPLE && x == 0) continue;
            all.push_back(x);
        }
    if (how == SEQUENTIAL || how == SIMPLE) k = 1;
    std::sort(all.begin(), all.end());
    if (all.empty()) return;
    const double want = all[std::min(k, all.size()) - 1];
    if (e.named) {
        SIM_CHECK(std::find(w.q.begin(), w.q.end(), e.a) != w.q.end(), "%s: first end %zu is not in the query set", how_name(how), e.a);
        SIM_CHECK(std::find(w.r.begin(), w.r.end(), e.b) != w.r.end(), "%s: second end %zu is not in the reference set", how_name(how), e.b);
        SIM_CHECK(!uni || w.comp[e.b] != w.comp[rep], "%s: the edge stays inside the component", how_name(how));
        SIM_CHECK(near(pair_distance(w, e.a, e.b), double(e.w), rel<T>(), 1e-30), "%s: edge %zu-%zu labelled %.9g, the samples are %.9g apart", how_name(how), e.a, e.b, double(e.w), pair_distance(w, e.a, e.b));
    }
    SIM_CHECK(near(double(e.w), want, rel<T>(), 1e-30), "%s (k=%zu, %zu x %zu samples): reported length %.9g, the true one is %.9g", how_name(how), k, w.q.size(), w.r.size(), double(e.w), want);
}
template <typename T>
Sets<T> draw_sets(sim::Rng& g, unsigned how) {
    Sets<T>           w;
    const std::size_t cap = sim_tier() ? 60 : (sim::pick("big", 0, 5) == 0 ? 40 : 14);
    Far               far(3);
    w.d                   = far("d", 1, 4, 40);
    const bool        few = sim::pick("few", 0, 3) == 0;  // so few that k matters
    const std::size_t nq = far("nq", 1, few ? 3 : cap, 120), nr = far("nr", 1, few ? 10 : cap, 120, 280, 540);
    const unsigned    shape = unsigned(sim::pick("shape", 0, LAST_SHAPE));
    const bool        uni   = how == TREE_UNION || how == SEQUENTIAL;
    w.shared                = uni || g.below(2) == 0;
    if (w.shared) {
        const std::size_t n = nq + nr;
        w.rdata             = make_values<T>(n, w.d, shape, g);
        auto all            = some_indices(n, n, g);
        w.q.assign(all.begin(), all.begin() + long(nq));
        w.r.assign(all.begin() + long(nq), all.end());
        w.comp = all_indices(n);
        w.uf   = ffcl::datastruct::UnionFind<std::size_t>(n);
        for (std::size_t i = 1; i < nq; ++i) w.uf.merge(w.q[i - 1 - g.below(i)], w.q[i]);
        for (auto i : w.q) w.comp[i] = w.q.front();
        if (uni) {  // the reference index may also hold the component itself
            if (g.below(2)) w.r = all;
            const std::size_t m = g.below(nr);
            for (std::size_t i = 0; i < m; ++i) {  // other components
                const std::size_t a = all[nq + g.below(nr)], b = all[nq + g.below(nr)];
                w.uf.merge(a, b);
            }
        }
    } else {
        w.qdata = make_values<T>(nq, w.d, shape, g);
        w.rdata = make_values<T>(nr, w.d, shape, g);
        w.q     = g.below(3) == 0 ? some_indices(nq, 1 + g.below(nq), g) : all_indices(nq);
        w.r     = g.below(3) == 0 ? some_indices(nr, 1 + g.below(nr), g) : all_indices(nr);
    }
    return w;
}
template <typename T>
void run(bool threads) {
    sim::Rng          g   = sim::rng("sets");
    const unsigned    how = unsigned(sim::pick("how", 0, threads ? TREE_UNION : NHOW - 1));
    Sets<T>           w   = draw_sets<T>(g, how);
    const std::size_t k   = sim::pick("k", 1, sim::pick("many", 0, 2) ? 2 : 9);
    auto              ridx = w.r;
    const TreeSpec    rs   = draw_spec(g, w.r.size(), w.d);
    pick_entropy();
    auto tree = make_index<T>(ridx, w.rdata, w.d, rs);
    const ffcl::search::Searcher<typename Space<T>::Tree> searcher(tree);
    const auto        q0 = w.qdata, r0 = w.rdata;
    const std::size_t nt = threads ? sim::pick("threads", 2, 3) : sim::pick("questions", 1, 3);
    std::vector<std::size_t> ks(nt, k);
    if (sim::pick("various", 0, 2) == 0)
        for (auto& x : ks) x = 1 + g.below(9);
    std::vector<TreeSpec> specs;
    for (std::size_t t = 0; t < nt; ++t) specs.push_back(draw_spec(g, w.q.size(), w.d));
    std::vector<Edge<T>> got(nt);
    if (threads) {
        std::vector<std::function<void()>> jobs;
        for (std::size_t t = 0; t < nt; ++t) jobs.push_back([&, t] { got[t] = ask(how, searcher, w, specs[t], ks[t]); });
        sim::concurrently(jobs, 5);
    } else {
        for (std::size_t t = 0; t < nt; ++t) got[t] = ask(how, searcher, w, specs[t], ks[t]);
    }
    SIM_CHECK(q0 == w.qdata && r0 == w.rdata, "the search changed a dataset");
    uint64_t h = how;
    for (std::size_t t = 0; t < nt; ++t) {
        check_edge(how, w, ks[t], got[t]);
        h = sim::mix(h, got[t].a * 1009 + got[t].b);
    }
    sim::note_state(h);
    if (w.q.size() * w.r.size() > 1) sim::nontrivial();
}
}  // namespace

SIM_SCENARIO(P11, edges, 4) { sim::pick("type", 0, 3) == 0 ? run<double>(false) : run<float>(false); }
SIM_SCENARIO(P11, threads, 2) { sim::pick("type", 0, 3) == 0 ? run<double>(true) : run<float>(true); }
