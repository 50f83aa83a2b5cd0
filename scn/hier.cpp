// P14: single-linkage hierarchies. P15: condensed hierarchies and HDBSCAN.
#include "tree.hpp"

#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"

namespace {
using namespace scn;

template <typename T>
using Edges = ffcl::datastruct::mst::EdgesList<std::size_t, T>;
template <typename T>
using Slct = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>;
template <typename T>
using Cct = ffcl::datastruct::CondensedClusterTree<std::size_t, T>;
using Labels = std::vector<std::size_t>;

// a random spanning tree with any edge order, direction and weights
template <typename T>
Edges<T> draw_edges(std::size_t n, unsigned weights, sim::Rng& g) {
    Edges<T>   e;
    const auto order = some_indices(n, n, g);
    const unsigned form = unsigned(g.below(4));  // random, chain, star, caterpillar
    for (std::size_t i = 1; i < n; ++i) {
        std::size_t a = order[i], b = order[form == 0 ? g.below(i) : form == 1 ? i - 1 : form == 2 ? 0 : i - 1 - (i > 1 ? g.below(2) : 0)];
        if (g.below(2)) std::swap(a, b);
        double w = 0;
        switch (weights) {
            case 0: w = g.unit() * 10.0 + 1e-3; break;
            case 1: w = double(1 + g.below(4)); break;
            case 2: w = double(g.below(3)); break;  // with zeros: duplicated samples
            case 3: w = 2.5; break;
            case 4: w = std::pow(10.0, double(int(g.below(9)) - 4)) * (1 + g.unit()); break;
            case 5: w = (g.unit() + 0.01) * 1e-8; break;
            default: w = 1.0 + double(g.below(4 * n)) * double(std::numeric_limits<T>::epsilon()); break;  // the last bits differ
        }
        e.emplace_back(a, b, T(w));
    }
    for (std::size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[g.below(i)]);
    return e;
}
// component ids of the samples when the edges kept by the predicate join them
template <typename T, typename Keep>
std::vector<std::size_t> components(std::size_t n, const Edges<T>& edges, Keep keep) {
    auto       c    = all_indices(n);
    const auto root = [&](std::size_t i) {
        while (c[i] != i) i = c[i] = c[c[i]];
        return i;
    };
    for (const auto& [a, b, w] : edges)
        if (keep(w)) c[root(b)] = root(a);
    for (std::size_t i = 0; i < n; ++i) c[i] = root(i);
    return c;
}
template <typename Node>
void leaves_of(const Node& node, std::vector<std::size_t>& out) {
    if (node->is_leaf()) {
        out.push_back(node->representative_);
        return;
    }
    leaves_of(node->left_, out);
    leaves_of(node->right_, out);
}
template <typename Node, typename F>
void walk(const Node& node, const F& f) {
    f(node);
    if (!node->is_leaf()) {
        walk(node->left_, f);
        walk(node->right_, f);
    }
}
template <typename Node, typename T>
void cut_at(const Node& node, T h, Labels& group) {
    if (node->level_ <= h) {
        std::vector<std::size_t> l;
        leaves_of(node, l);
        for (auto i : l) group[i] = l.front();
        return;
    }
    cut_at(node->left_, h, group);
    cut_at(node->right_, h, group);
}
inline bool same_partition(const std::vector<std::size_t>& a, const std::vector<std::size_t>& b) {
    // the labels are positions: one of each has to correspond to one of the other
    constexpr auto           none = ~std::size_t(0);
    std::vector<std::size_t> ab(a.size(), none), ba(a.size(), none);
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (ab[a[i]] == none) ab[a[i]] = b[i];
        if (ba[b[i]] == none) ba[b[i]] = a[i];
        if (ab[a[i]] != b[i] || ba[b[i]] != a[i]) return false;
    }
    return true;
}
template <typename T>
void check_hierarchy(const Slct<T>& tree, const Edges<T>& edges, std::size_t n, const char* what) {
    const auto root = tree.root();
    SIM_CHECK(root != nullptr, "%s: no root", what);
    std::vector<std::size_t> l;
    leaves_of(root, l);
    SIM_CHECK(l.size() == n, "%s: %zu leaves for %zu samples", what, l.size(), n);
    std::vector<std::size_t> sorted = l;
    std::sort(sorted.begin(), sorted.end());
    SIM_CHECK(sorted == all_indices(n), "%s: the leaves are not each sample once", what);
    SIM_CHECK(!root->has_parent(), "%s: the root has a parent", what);
    std::vector<T> levels, weights;
    for (const auto& e : edges) weights.push_back(std::get<2>(e));
    walk(root, [&](const auto& node) {
        if (node->is_leaf()) {
            SIM_CHECK(node->size() == 1, "%s: a leaf has size %zu", what, node->size());
            SIM_CHECK(node->level_ == T(0), "%s: a leaf has height %g", what, double(node->level_));
            return;
        }
        std::vector<std::size_t> m;
        leaves_of(node, m);
        SIM_CHECK(node->size() == m.size(), "%s: a group of %zu samples says its size is %zu", what, m.size(), node->size());
        SIM_CHECK(std::count(m.begin(), m.end(), node->representative_) == 1, "%s: the representative of a group is not in it", what);
        for (const auto& c : {node->left_, node->right_}) {
            SIM_CHECK(c->has_parent(), "%s: a child without parent", what);
            SIM_CHECK(c->level_ <= node->level_, "%s: a group at height %g contains one at height %g", what, double(node->level_), double(c->level_));
        }
        levels.push_back(node->level_);
    });
    std::sort(levels.begin(), levels.end());
    std::sort(weights.begin(), weights.end());
    SIM_CHECK(levels == weights, "%s: the heights of the merges are not the lengths of the edges", what);
    weights.push_back(T(0));
    for (const T h : weights) {
        Labels got(n, 0);
        cut_at(root, h, got);
        SIM_CHECK(same_partition(got, components(n, edges, [h](T w) { return w <= h; })), "%s: the groups at height %g are not the components joined by edges up to it", what, double(h));
    }
}
template <typename T>
void check_flat(const Labels& l, const Edges<T>& edges, std::size_t n, T cut, std::size_t min_size, const char* what) {
    SIM_CHECK(l.size() == n, "%s: %zu labels for %zu samples", what, l.size(), n);
    const auto c = components(n, edges, [cut](T w) { return w < cut; });
    std::vector<std::size_t> size(n, 0);
    for (auto x : c) ++size[x];
    for (std::size_t i = 0; i < n; ++i) {
        SIM_CHECK((l[i] == 0) == (size[c[i]] < min_size), "%s (cut %g, minimum size %zu): sample %zu in a group of %zu has the label %zu", what, double(cut), min_size, i, size[c[i]], l[i]);
        for (std::size_t j = 0; j < i && l[i]; ++j)
            SIM_CHECK(!l[j] || (l[i] == l[j]) == (c[i] == c[j]), "%s (cut %g): samples %zu and %zu share a label: %d, are joined below the cut: %d", what, double(cut), i, j, l[i] == l[j], c[i] == c[j]);
    }
}
template <typename T>
T draw_cut(const Edges<T>& edges, sim::Rng& g) {
    if (edges.empty()) return T(g.below(3));
    T w = std::get<2>(edges[g.below(edges.size())]);
    if (g.below(2)) {  // one of the last joins
        std::vector<T> ws;
        for (const auto& e : edges) ws.push_back(std::get<2>(e));
        std::sort(ws.begin(), ws.end(), std::greater<T>());
        w = ws[g.below(std::min<std::size_t>(8, ws.size()))];
    }
    switch (g.below(5)) {
        case 0: return w;
        case 1: return std::nextafter(w, std::numeric_limits<T>::max());
        case 2: return std::numeric_limits<T>::infinity();
        case 3: return T(0);
        default: return T(w * (0.5 + g.unit()));
    }
}

template <typename T>
void linkage_run() {
    sim::Rng          g     = sim::rng("slct");
    Far               far(1);
    const std::size_t n     = far("n", 1, sim_tier() ? 40 : 14, 150, 270, 540);
    const auto        edges = draw_edges<T>(n, unsigned(sim::pick("weights", 0, 6)), g);
    using Options           = typename Slct<T>::Options;
    const T           cut   = draw_cut(edges, g);
    const std::size_t mins  = 1 + g.below(g.below(2) ? 2 : n + 1);
    const Options     opt   = Options().cut_level(cut).min_cluster_size(mins);
    pick_entropy();
    const unsigned how = unsigned(sim::pick("how", 0, 3));
    auto           copy = edges;
    auto make = [&]() -> Slct<T> {
        if (how == 0) return Slct<T>(edges, opt);
        if (how == 1) return Slct<T>(std::move(copy), opt);
        if (how == 2) return Slct<T>(std::move(copy));
        return Slct<T>(edges);
    };
    Slct<T> tree = make();
    check_hierarchy(tree, edges, n, "hierarchy");
    if (how > 1) {
        check_flat<T>(tree.predict(), edges, n, std::numeric_limits<T>::infinity(), 1, "flat clusters with default options");
        tree.set_options(opt);
    }
    const Labels l = tree.predict();
    check_flat<T>(l, edges, n, cut, mins, "flat clusters");
    SIM_CHECK(tree.predict() == l && tree.extract_flat_clusters() == l, "predicting again gives other labels");
    check_hierarchy(tree, edges, n, "hierarchy after predicting");
    sim::note_state(hash_values(l));
    if (n > 2) sim::nontrivial();
}
template <typename T>
void linkage_threads() {
    sim::Rng          g     = sim::rng("slct");
    const std::size_t n     = sim::pick("n", 1, 9), nt = sim::pick("threads", 2, 3);
    const auto        edges = draw_edges<T>(n, unsigned(sim::pick("weights", 0, 6)), g);
    using Options           = typename Slct<T>::Options;
    std::vector<T>           cut;
    std::vector<std::size_t> mins;
    for (std::size_t t = 0; t < nt; ++t) cut.push_back(draw_cut(edges, g)), mins.push_back(1 + g.below(3));
    const bool                         shared = sim::pick("shared", 0, 1) == 1;
    const Slct<T>                      one(edges, Options().cut_level(cut[0]).min_cluster_size(mins[0]));
    std::vector<Labels>                got(nt);
    std::vector<std::function<void()>> jobs;
    for (std::size_t t = 0; t < nt; ++t) jobs.push_back([&, t] {
        if (shared) {
            got[t] = one.predict();
            check_hierarchy(one, edges, n, "shared hierarchy");
        } else {
            const Slct<T> own(edges, Options().cut_level(cut[t]).min_cluster_size(mins[t]));
            check_hierarchy(own, edges, n, "hierarchy built next to others");
            got[t] = own.predict();
        }
    });
    sim::concurrently(jobs, 4);
    for (std::size_t t = 0; t < nt; ++t) {
        check_flat<T>(got[t], edges, n, cut[shared ? 0 : t], mins[shared ? 0 : t], "flat clusters next to other threads");
        sim::note_state(hash_values(got[t]));
    }
    if (n > 2) sim::nontrivial();
}

// ------------------------------------------------------------------------------------------------ condensed hierarchy
// The reference condensation, in double precision, of any hierarchy given by its nodes.
struct Ref {
    std::vector<std::size_t> members;
    double                   own = 0, best = 0, mass = 0;  // stability, best of the subtree, finite mass for the tolerance
    int                      left = -1, right = -1;
    bool                     endless = false;
};
template <typename T>
struct Condensed {
    std::vector<Ref> nodes;
    std::size_t      min_size;
    static double    cap() { return 1.5 * double(std::numeric_limits<float>::max()); }

    static double lambda(T level) {
        const double m = double(std::numeric_limits<T>::max());
        return level > T(0) ? std::min(1.0 / double(level), m) : m;
    }
    static double limit(double x) {
        if (std::is_same<T, float>::value && x > cap()) return std::numeric_limits<double>::infinity();
        return x;
    }
    template <typename Node>
    int build(const Node& start, double birth) {
        const int id = int(nodes.size());
        nodes.emplace_back();
        std::vector<std::size_t> m;
        leaves_of(start, m);
        std::sort(m.begin(), m.end());
        nodes[id].members = m;
        auto   at         = start;
        double own = 0, mass = 0;
        auto   add = [&](std::size_t size, double lam) {
            own = limit(own + double(size) * (lam - birth));
            if (std::isfinite(double(size) * lam)) mass += double(size) * lam;
        };
        while (!at->is_leaf()) {
            const double lam = lambda(at->level_);
            const bool   l = at->left_->size() >= min_size, r = at->right_->size() >= min_size;
            if (l && r) {
                add(at->size(), lam);
                const int a = build(at->left_, lam);
                const int b = build(at->right_, lam);
                nodes[id].left = a, nodes[id].right = b;
                break;
            }
            if (!l && !r) {
                add(at->size(), lam);
                break;
            }
            add(l ? at->right_->size() : at->left_->size(), lam);
            // copy first: the child must outlive the pointer that is replaced
            auto next = l ? at->left_ : at->right_;
            at        = next;
        }
        Ref& x = nodes[id];
        x.own = own, x.mass = mass;
        if (x.left < 0) {
            x.best = own;
        } else {
            const double kids = limit(nodes[x.left].best + nodes[x.right].best);
            x.best            = std::max(kids, own);
            x.mass += nodes[x.left].mass + nodes[x.right].mass;
        }
        return id;
    }
    double kids(const Ref& x) const { return limit(nodes[x.left].best + nodes[x.right].best); }
    double slack(const Ref& x) const { return (std::is_same<T, float>::value ? 1e-4 : 1e-9) * x.mass; }
};
template <typename T>
void check_selection(const Condensed<T>& c, const Labels& l, bool leaf_nodes, bool single, const char* what) {
    const std::size_t n = c.nodes[0].members.size();
    SIM_CHECK(l.size() == n, "%s: %zu labels for %zu samples", what, l.size(), n);
    std::size_t top = 0;
    for (auto x : l) top = std::max(top, x);
    std::vector<std::vector<std::size_t>> group(top + 1);
    for (std::size_t i = 0; i < n; ++i) group[l[i]].push_back(i);
    std::vector<char> chosen(c.nodes.size(), 0);
    for (std::size_t k = 1; k <= top; ++k) {
        SIM_CHECK(!group[k].empty(), "%s: the labels are not consecutive, %zu is missing", what, k);
        bool found = false;
        for (std::size_t i = 0; i < c.nodes.size(); ++i)
            if (c.nodes[i].members == group[k]) chosen[i] = 1, found = true;
        SIM_CHECK(found, "%s: cluster %zu (%zu samples, minimum size %zu) is not a cluster of the condensed hierarchy", what, k, group[k].size(), c.min_size);
    }
    SIM_CHECK(group[0].empty() || top > 0, "%s: no cluster at all", what);
    // from the root down: the nodes passed must be beaten by what is below them, the chosen ones must beat it
    std::function<void(int)> down = [&](int id) {
        const Ref& x = c.nodes[id];
        if (chosen[id]) {
            if (x.left < 0) return;
            SIM_CHECK(!leaf_nodes, "%s: the leaf clusters were requested, one that has smaller clusters inside was returned", what);
            SIM_CHECK(id != 0 || single, "%s: everything is one cluster although that is not allowed", what);
            const double k = c.kids(x);
            SIM_CHECK(x.own >= k || x.own + c.slack(x) >= k, "%s: a cluster of stability %.9g was selected over its sub-clusters of stability %.9g", what, x.own, k);
            return;
        }
        SIM_CHECK(x.left >= 0, "%s: %zu samples belong to no cluster although they form one", what, x.members.size());
        if (!leaf_nodes && (id != 0 || single)) {
            const double k = c.kids(x);
            SIM_CHECK(k >= x.own || k + c.slack(x) >= x.own, "%s: sub-clusters of stability %.9g were selected over a cluster of stability %.9g", what, k, x.own);
        }
        down(x.left);
        down(x.right);
    };
    down(0);
}
template <typename T>
Condensed<T> condense(const Slct<T>& tree, std::size_t min_size) {
    Condensed<T> c;
    c.min_size = min_size;
    c.build(tree.root(), 0.0);
    return c;
}
template <typename T>
void condensed_run() {
    sim::Rng          g     = sim::rng("cct");
    Far               far(1);
    const std::size_t n     = far("n", 1, sim_tier() ? 60 : (sim::pick("big", 0, 3) == 0 ? 40 : 16), 160, 270, 540);
    const auto        edges = draw_edges<T>(n, unsigned(sim::pick("weights", 0, 6)), g);
    std::size_t       mins  = sim::pick("min_size", 1, far.any() ? 20 : 6);
    bool              leaf  = sim::pick("leaf_nodes", 0, 3) == 3;
    if (far.huge && g.below(2)) mins = 1, leaf = true;  // as many clusters as there can be
    const bool        single = sim::pick("single", 0, 1) == 1;
    pick_entropy();
    const Slct<T> tree(edges);
    const auto    c = condense(tree, mins);
    const Cct<T>  cct(tree.root(), typename Cct<T>::Options().min_cluster_size(mins).allow_single_cluster(single).return_leaf_nodes(leaf));
    const Labels  l = cct.predict();
    check_selection(c, l, leaf, single, "condensed hierarchy");
    SIM_CHECK(cct.predict() == l && cct.extract_flat_clusters() == l, "predicting again gives other labels");
    check_hierarchy(tree, edges, n, "hierarchy after condensing");
    const Cct<T> again(tree.root(), typename Cct<T>::Options().min_cluster_size(mins).allow_single_cluster(single).return_leaf_nodes(leaf));
    SIM_CHECK(again.predict() == l, "condensing the same hierarchy again gives other labels");
    sim::note_state(hash_values(l));
    if (c.nodes.size() > 1) sim::nontrivial();
}

// ------------------------------------------------------------------------------------------------------------ HDBSCAN
template <typename T>
struct Job {
    std::size_t k = 1, min_size = 5;
    bool        leaf = false, single = true;
    TreeSpec    spec;
};
template <typename T>
Job<T> draw_job(sim::Rng& g, std::size_t n, std::size_t d) {
    Job<T> j;
    j.k        = g.below(2) ? 1 : 1 + g.below(5);
    j.min_size = 1 + g.below(6);
    j.leaf     = g.below(4) == 0;
    j.single   = g.below(2);
    j.spec     = draw_spec(g, n, d);
    return j;
}
template <typename T>
Labels cluster(std::vector<T>& data, std::size_t n, std::size_t d, const Job<T>& j, unsigned how = 0) {
    using Tree = typename Space<T>::Tree;
    using Alg  = ffcl::HDBSCAN<Tree>;
    auto idx   = all_indices(n);
    const auto opt = typename Alg::Options().k_nearest_neighbors(j.k).min_cluster_size(j.min_size).return_leaf_nodes(j.leaf).allow_single_cluster(j.single);
    auto tree = make_index<T>(idx, data, d, j.spec);
    if (how == 0) return Alg(opt).predict(std::move(tree));
    Alg alg;
    alg.set_options(opt);
    return alg.predict(tree);
}
template <typename T>
std::vector<double> reach_matrix(const std::vector<T>& data, std::size_t n, std::size_t d, std::size_t k) {
    std::vector<double> m(n * n), core(n, 0.0);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) m[i * n + j] = ref_distance(data.data() + i * d, data.data() + j * d, d);
    if (k > 1)
        for (std::size_t i = 0; i < n; ++i) {
            std::vector<double> v(m.begin() + long(i * n), m.begin() + long(i * n + n));
            std::sort(v.begin(), v.end());
            core[i] = v[std::min(k, n) - 1];
        }
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) m[i * n + j] = std::max({m[i * n + j], core[i], core[j]});
    return m;
}
// Prim on the distances, rounded to T
template <typename T>
Edges<T> prim(const std::vector<double>& m, std::size_t n) {
    Edges<T>                 e;
    std::vector<char>        in(n, 0);
    std::vector<std::size_t> from(n, 0);
    in[0] = 1;
    for (std::size_t s = 1; s < n; ++s) {
        std::size_t u = n;
        for (std::size_t i = 0; i < n; ++i)
            if (!in[i] && (u == n || m[i * n + from[i]] < m[u * n + from[u]])) u = i;
        in[u] = 1;
        e.emplace_back(from[u], u, T(m[u * n + from[u]]));
        for (std::size_t i = 0; i < n; ++i)
            if (!in[i] && m[i * n + u] < m[i * n + from[i]]) from[i] = u;
    }
    return e;
}
template <typename T>
void check_clustering(const std::vector<T>& data, std::size_t n, std::size_t d, const Job<T>& j, const Labels& l, const char* what) {
    SIM_CHECK(l.size() == n, "%s: %zu labels for %zu samples", what, l.size(), n);
    const auto  m   = reach_matrix(data, n, d, j.k);
    std::size_t top = 0;
    for (auto x : l) top = std::max(top, x);
    for (std::size_t k = 1; k <= top; ++k) {
        std::vector<std::size_t> in, out;
        for (std::size_t i = 0; i < n; ++i) (l[i] == k ? in : out).push_back(i);
        SIM_CHECK(!in.empty(), "%s: the labels are not consecutive, %zu is missing", what, k);
        if (out.empty()) continue;
        SIM_CHECK(in.size() >= j.min_size, "%s: a cluster of %zu samples, the minimum is %zu", what, in.size(), j.min_size);
        // longest link needed to join the cluster, and the shortest one out of it
        std::vector<double> sub(in.size() * in.size());
        for (std::size_t a = 0; a < in.size(); ++a)
            for (std::size_t b = 0; b < in.size(); ++b) sub[a * in.size() + b] = m[in[a] * n + in[b]];
        double inside = 0, outside = std::numeric_limits<double>::infinity();
        for (const auto& e : prim<double>(sub, in.size())) inside = std::max(inside, double(std::get<2>(e)));
        for (auto a : in)
            for (auto b : out) outside = std::min(outside, m[a * n + b]);
        SIM_CHECK(inside <= outside * (1 + rel<T>()), "%s: cluster %zu needs a link of %.9g to hold together but is %.9g away from the other samples", what, k, inside, outside);
    }
    // without ties the hierarchy is unique: the whole clustering is decided
    const auto          e = prim<T>(m, n);
    std::vector<double> w;
    for (const auto& x : e) w.push_back(double(std::get<2>(x)));
    std::sort(w.begin(), w.end());
    bool ties = false;
    for (std::size_t i = 1; i < w.size(); ++i) ties |= w[i] - w[i - 1] <= rel<T>() * w[i];
    if (ties) return;
    const Slct<T> tree(e);
    const auto    c = condense(tree, j.min_size);
    check_selection(c, l, j.leaf, j.single, what);
    if (c.nodes.size() > 1) sim::nontrivial();
}
template <typename T>
void hdbscan_run() {
    sim::Rng          g = sim::rng("hdbscan");
    Far               far(2);
    const std::size_t n = far("n", 1, sim_tier() ? 60 : (sim::pick("big", 0, 4) == 0 ? 36 : 14), 100, 262);
    const std::size_t d = far("d", 1, 3, 36);
    auto              data = make_values<T>(n, d, unsigned(sim::pick("shape", 0, LAST_SHAPE)), g);
    const auto        data0 = data;
    const auto        j     = draw_job<T>(g, n, d);
    pick_entropy();
    Labels a, b, c;
    const unsigned how = unsigned(sim::pick("how", 0, 1));
    sim::fresh(1, [&] { a = cluster(data, n, d, j, how); });
    sim::fresh(1, [&] { b = cluster(data, n, d, j, 1 - how); });
    SIM_CHECK(a == b, "the same input and random stream give other labels");
    SIM_CHECK(data == data0, "clustering changed the dataset");
    check_clustering(data, n, d, j, a, "hdbscan");
    // the same pieces put together by hand
    sim::fresh(1, [&] {
        auto       idx  = all_indices(n);
        using Tree      = typename Space<T>::Tree;
        using Bor       = ffcl::BoruvkasAlgorithm<Tree>;
        auto       tree = make_index<T>(idx, data, d, j.spec);
        const auto mst  = Bor(typename Bor::Options().k_nearest_neighbors(j.k)).make_tree(tree);
        const Slct<T> slct(mst);
        check_selection(condense(slct, j.min_size), a, j.leaf, j.single, "hdbscan");
    });
    sim::note_state(hash_values(a));
}
// one object clusters several datasets in turn, or at the same time
template <typename T>
void hdbscan_reuse() {
    sim::Rng          g = sim::rng("hdbscan");
    const std::size_t m = sim::pick("datasets", 2, 3);
    const bool        as_many = sim::pick("as_many", 0, 1) == 1, together = sim::pick("together", 0, 2) == 0;
    std::vector<std::size_t>    n(m), d(m);
    std::vector<std::vector<T>> data;
    for (std::size_t i = 0; i < m; ++i) {
        n[i] = i && as_many ? n[0] : sim::pick("n", 1, 14);
        d[i] = i && as_many ? d[0] : sim::pick("d", 1, 2);
        data.push_back(make_values<T>(n[i], d[i], unsigned(sim::pick("shape", 0, LAST_SHAPE)), g));
    }
    Job<T> j = draw_job<T>(g, n[0], d[0]);
    pick_entropy();
    using Tree = typename Space<T>::Tree;
    using Alg  = ffcl::HDBSCAN<Tree>;
    const auto options = [](const Job<T>& x) { return typename Alg::Options().k_nearest_neighbors(x.k).min_cluster_size(x.min_size).return_leaf_nodes(x.leaf).allow_single_cluster(x.single); };
    Alg        alg(options(j));
    const Alg& calg = alg;
    const auto run  = [&](std::size_t i, const TreeSpec& spec) {
        auto idx = all_indices(n[i]);
        return Labels(calg.predict(make_index<T>(idx, data[i], d[i], spec)));
    };
    if (together) {
        std::vector<TreeSpec>                specs;
        std::vector<std::function<Labels()>> jobs;
        for (std::size_t i = 0; i < m; ++i) specs.push_back(draw_spec(g, n[i], d[i]));
        for (std::size_t i = 0; i < m; ++i) jobs.push_back([&, i] {
            Labels l = run(i, specs[i]);
            check_clustering(data[i], n[i], d[i], j, l, "hdbscan object shared by threads");
            return l;
        });
        at_once_and_alone<Labels>(jobs, 6, "labels");
        return;
    }
    const std::size_t steps = sim::pick("steps", 2, 4);
    for (std::size_t s = 0; s < steps; ++s) {
        const std::size_t i = g.below(m);
        if (g.below(3) == 0) {
            j = draw_job<T>(g, n[0], d[0]);
            alg.set_options(options(j));
        }
        overwrite(data[i], n[i], d[i], g);
        const Labels l = run(i, draw_spec(g, n[i], d[i]));
        check_clustering(data[i], n[i], d[i], j, l, "hdbscan with an object used before");
        sim::note_state(hash_values(l));
    }
}
template <typename T>
void hdbscan_threads() {
    sim::Rng          g = sim::rng("hdbscan");
    const std::size_t n = sim::pick("n", 1, 12), d = sim::pick("d", 1, 2), nt = sim::pick("threads", 2, 3);
    auto              data = make_values<T>(n, d, unsigned(sim::pick("shape", 0, LAST_SHAPE)), g);
    std::vector<Job<T>> js;
    for (std::size_t t = 0; t < nt; ++t) js.push_back(draw_job<T>(g, n, d));
    std::vector<std::function<Labels()>> jobs;
    for (std::size_t t = 0; t < nt; ++t) jobs.push_back([&, t] {
        Labels l = cluster(data, n, d, js[t]);
        check_clustering(data, n, d, js[t], l, "hdbscan next to other threads");
        return l;
    });
    at_once_and_alone<Labels>(jobs, 6, "labels");
}
}  // namespace

SIM_SCENARIO(P14, linkage, 5) { sim::pick("type", 0, 3) == 0 ? linkage_run<double>() : linkage_run<float>(); }
SIM_SCENARIO(P14, threads, 2) { linkage_threads<float>(); }
SIM_SCENARIO(P15, condensed, 4) { sim::pick("type", 0, 3) == 0 ? condensed_run<double>() : condensed_run<float>(); }
SIM_SCENARIO(P15, hdbscan, 4) { sim::pick("type", 0, 3) == 0 ? hdbscan_run<double>() : hdbscan_run<float>(); }
SIM_SCENARIO(P15, reuse, 2) { hdbscan_reuse<float>(); }
SIM_SCENARIO(P15, threads, 2) { hdbscan_threads<float>(); }
