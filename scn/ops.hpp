// Every public operation of the library as a job on a shared read-only world, for the properties that quantify over
// operations (P16 allocation failures, P19 independent threads, P20 memory).
#pragma once
#include "tree.hpp"

#include "ffcl/search/ClosestPairOfSamples.hpp"

#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/common/math/random/Distributions.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
#include "ffcl/datastruct/UnionFind.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/kmeans/Hamerly.hpp"
#include "ffcl/kmeans/KMeans.hpp"
#include "ffcl/kmeans/KMeansPlusPlus.hpp"
#include "ffcl/kmeans/Lloyd.hpp"
#include "ffcl/kmedoids/FasterMSC.hpp"
#include "ffcl/kmedoids/FasterPAM.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"

#include <fstream>
#include <sstream>
#include <unordered_set>

namespace scn {

using Out = std::vector<uint64_t>;

inline void put(Out& o, double x) {
    o.push_back(fbits(x));
}
inline void put(Out& o, std::size_t x) {
    o.push_back(x);
}
template <typename V>
void put_all(Out& o, const V& v) {
    for (const auto& x : v) put(o, std::is_floating_point<std::decay_t<decltype(x)>>::value ? double(x) : double(x));
}
template <typename T>
struct World {
    using It       = typename std::vector<T>::iterator;
    using Tree     = typename Space<T>::Tree;
    using Searcher = ffcl::search::Searcher<Tree>;
    using Matrix   = ffcl::datastruct::PairwiseDistanceMatrix<It>;
    using Slct     = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>;
    using Cct      = ffcl::datastruct::CondensedClusterTree<std::size_t, T>;
    using Edges    = ffcl::datastruct::mst::EdgesList<std::size_t, T>;
    using Bor      = ffcl::BoruvkasAlgorithm<Tree>;

    mutable std::vector<T>   data;  // the iterators of the interface are not const
    std::size_t              n = 0, d = 0;
    TreeSpec                 spec;
    std::vector<std::size_t> index;
    std::unique_ptr<const Tree>                                     tree;
    std::unique_ptr<const Searcher>                                 searcher;
    std::unique_ptr<const Matrix>                                   matrix;
    std::unique_ptr<const Slct>                                     slct;
    std::unique_ptr<const ffcl::datastruct::UnionFind<std::size_t>> uf;
    std::unique_ptr<const ffcl::KMeans<T>>                          kmeans;
    std::unique_ptr<const ffcl::KMedoids<T>>                        kmedoids;
    std::unordered_set<std::size_t>                                 excluded;
    std::vector<std::size_t>                                        labels;
    Edges                                                           edges;

    void draw(sim::Rng& g, std::size_t n_, std::size_t d_, unsigned shape) {
        n     = n_;
        d     = d_;
        data  = make_values<T>(n, d, shape, g);
        spec  = draw_spec(g, n, d);
        index = all_indices(n);
        tree.reset(new Tree(make_index<T>(index, data, d, spec)));
        searcher.reset(new Searcher(*tree));
        matrix.reset(new Matrix(data.begin(), data.end(), d));
        edges = Bor(typename Bor::Options().k_nearest_neighbors(1 + g.below(3))).make_tree(*tree);
        slct.reset(new Slct(edges, typename Slct::Options().cut_level(T(1.5)).min_cluster_size(2)));
        auto* u = new ffcl::datastruct::UnionFind<std::size_t>(n);
        for (std::size_t i = 1; i + 1 < n; ++i)  // the last sample stays alone: every component has an outside
            if (g.below(2)) u->merge(g.below(i), i);
        uf.reset(u);
        auto* km = new ffcl::KMeans<T>(std::min<std::size_t>(n, 3), typename ffcl::KMeans<T>::Options().max_iter(5).n_init(1));
        km->template fit<ffcl::Hamerly>(data.begin(), data.end(), d);
        kmeans.reset(km);
        auto* kd = new ffcl::KMedoids<T>(2, typename ffcl::KMedoids<T>::Options().max_iter(5).n_init(1));
        kd->template fit<ffcl::FasterPAM>(*matrix);
        kmedoids.reset(kd);
        for (std::size_t i = 0; i < n; ++i) {
            if (g.below(3) == 0) excluded.insert(i);
            labels.push_back(i < 2 ? i : g.below(std::min<std::size_t>(n, 3)));
        }
    }
};
template <typename Tree>
void put_tree(Out& o, const Tree& t) {
    std::function<void(const typename Tree::NodePtr&)> go = [&](const typename Tree::NodePtr& p) {
        for (auto it = p->indices_range_.first; it != p->indices_range_.second; ++it) o.push_back(*it);
        o.push_back(uint64_t(p->cut_axis_feature_index_));
        if (p->is_leaf()) return;
        go(p->left_);
        go(p->right_);
    };
    go(t.root());
    o.push_back(t.n_samples());
}
template <typename B>
void put_answer(Out& o, const B& b) {
    for (auto i : b.indices()) o.push_back(i);
    for (auto x : b.distances()) put(o, double(x));
}
// reading a file back is the harness's business
inline void put_file(Out& o, const std::string& path) {
    sim::heap_pause(true);
    uint64_t size = 0, h = 7;
    {
        std::ifstream     f(path, std::ios::binary);
        std::stringstream s;
        s << f.rdbuf();
        const std::string t = s.str();
        size                = t.size();
        for (unsigned char c : t) h = h * 1099511628211ull ^ c;
    }
    sim::heap_pause(false);
    o.push_back(size);
    o.push_back(h);
}

inline std::string save_path(unsigned file) {
    sim::heap_pause(true);
    std::string p = std::string(sim::scratch()) + "op" + std::to_string(file) + ".json";
    p.reserve(256);
    sim::heap_pause(false);
    return p;
}

struct OpSpec {
    unsigned op = 0;
    uint64_t a = 0, b = 0, c = 0;  // free parameters
    TreeSpec spec;
    unsigned file = 0;  // file name for the operations that save
};
enum OpId {
    OP_BUILD, OP_KNN, OP_ALL, OP_BALL, OP_BOX, OP_BATCH, OP_MEM, OP_UNION, OP_DUAL, OP_DUAL_UNION, OP_DUAL_SET, OP_MST, OP_MST2, OP_SLCT, OP_SLCT_PREDICT,
    OP_CONDENSED, OP_HDBSCAN, OP_DBSCAN, OP_LLOYD, OP_HAMERLY, OP_KMEANS_PREDICT, OP_PAM, OP_PAM_DATA, OP_MSC, OP_KMEDOIDS_PREDICT, OP_MATRIX, OP_DYNAMIC, OP_TRANSPOSE,
    OP_PLUSPLUS, OP_SAMPLES, OP_INIT, OP_DRAWS, OP_ALIAS, OP_SILHOUETTE, OP_UF, OP_COPIES, OP_LIVES, OP_ASSIGN, OP_SAVE_TREE, OP_SAVE_SLCT, NOPS
};
inline const char* op_name(unsigned op) {
    static const char* n[] = {"building an index", "k nearest neighbours", "all nearest neighbours", "ball query", "box query", "batch of queries", "query with exclusions", "query outside a component", "dual tree edge", "dual tree edge outside a component", "dual set edge", "spanning tree", "dual tree spanning tree", "single-linkage hierarchy", "flat clusters of a shared hierarchy",
        "condensed hierarchy", "HDBSCAN", "DBSCAN", "k-means (Lloyd)", "k-means (Hamerly)", "assignment by a shared k-means model", "k-medoids on a shared matrix", "k-medoids on data", "k-medoids (FasterMSC)", "assignment by a shared k-medoids model", "pairwise distance matrix", "on-demand distance matrix", "transposition",
        "k-means++ seeding", "sampling", "uniform initialisation", "random draws", "weighted draws", "silhouette", "union-find", "copying and moving objects", "objects that outlive their source", "assigning objects", "saving an index", "saving a hierarchy"};
    return n[op];
}
inline OpSpec draw_op(sim::Rng& g, std::size_t n, std::size_t d, unsigned nops = NOPS) {
    OpSpec s;
    s.op   = unsigned(g.below(nops));
    s.a    = g.next() >> 8;
    s.b    = g.next() >> 8;
    s.c    = g.next() >> 8;
    s.spec = draw_spec(g, n, d);
    return s;
}

template <typename T>
Out run_op(const World<T>& w, const OpSpec& s) {
    using W  = World<T>;
    using It = typename W::It;
    namespace buf = ffcl::search::buffer;
    namespace bnd = ffcl::datastruct::bounds;
    namespace rnd = ffcl::common::math::random;
    Out               o;
    const std::size_t n = w.n, d = w.d, k = 1 + s.a % 4;
    std::vector<T>    q(w.data.begin() + long((s.b % n) * d), w.data.begin() + long((s.b % n + 1) * d));
    if (s.c & 1) q[0] = T(q[0] + T(1));
    const T    radius = T(double(s.c % 64) * 0.25);
    It         first = w.data.begin(), last = w.data.end();
    // a name with the same number of allocations whatever the scratch directory is called
    const std::string path = save_path(s.file);
    switch (s.op) {
        case OP_BUILD: {
            auto idx = all_indices(n);
            try {
                auto t = make_index<T>(idx, w.data, d, s.spec);
                put_tree(o, t);
            } catch (const std::bad_alloc&) {
                // whatever happened, the caller still has his indices
                std::sort(idx.begin(), idx.end());
                for (std::size_t i = 0; i < n; ++i) SIM_CHECK(idx[i] == i, "building an index: running out of memory lost one of the caller's indices");
                throw;
            }
            break;
        }
        case OP_KNN: put_answer(o, (*w.searcher)(buf::Unsorted(q.begin(), q.end(), k))); break;
        case OP_ALL: put_answer(o, (*w.searcher)(buf::Unsorted(q.begin(), q.end()))); break;
        case OP_BALL: put_answer(o, (*w.searcher)(buf::Unsorted(bnd::BallView<It>(q.begin(), q.end(), radius)))); break;
        case OP_BOX: {
            using Seg = bnd::segment::LowerBoundAndUpperBound<T>;
            using Box = bnd::AABBWithCentroid<Seg>;
            std::vector<Seg> segs;
            for (std::size_t j = 0; j < d; ++j) segs.emplace_back(T(q[j] - radius), T(q[j] + radius));
            put_answer(o, (*w.searcher)(buf::Unsorted(Box(typename Box::SegmentsType(std::move(segs))))));
            break;
        }
        case OP_BATCH: {
            std::vector<buf::Unsorted<It>> batch;
            batch.emplace_back(q.begin(), q.end(), k);
            batch.emplace_back(q.begin(), q.end());
            auto got = (*w.searcher)(std::move(batch));
            for (const auto& b : got) put_answer(o, b);
            break;
        }
        case OP_MEM: {
            auto own = w.excluded;
            if (s.c & 2)
                put_answer(o, (*w.searcher)(buf::WithMemory<It>(q.begin(), q.end(), std::move(own), k)));
            else
                put_answer(o, (*w.searcher)(buf::WithMemory<It>(q.begin(), q.end(), w.excluded, k)));
            break;
        }
        case OP_UNION: put_answer(o, (*w.searcher)(buf::WithUnionFind<It>(q.begin(), q.end(), *w.uf, s.b % n, k))); break;
        case OP_DUAL:
        case OP_DUAL_UNION: {
            auto idx = all_indices(n);
            idx.resize(1 + s.b % n);
            const auto  t = make_index<T>(idx, w.data, d, s.spec);
            if (s.op == OP_DUAL) {
                const auto e = w.searcher->dual_tree_shortest_edge(t, k);
                o = {std::get<0>(e), std::get<1>(e), fbits(std::get<2>(e))};
            } else {
                const auto& uf = *w.uf;
                const auto  e  = w.searcher->dual_tree_shortest_edge(t, uf, std::size_t(idx[0]), k);
                o = {std::get<0>(e), std::get<1>(e), fbits(std::get<2>(e))};
            }
            break;
        }
        case OP_DUAL_SET: {
            auto a = all_indices(n), b = all_indices(n);
            a.resize(1 + s.b % n);
            const auto e = ffcl::search::algorithms::dual_set_shortest_edge(a.begin(), a.end(), first, last, d, b.begin(), b.end(), first, last, d, k);
            o = {std::get<0>(e), std::get<1>(e), fbits(std::get<2>(e))};
            break;
        }
        case OP_MST:
        case OP_MST2: {
            auto       idx = all_indices(n);
            auto       t   = make_index<T>(idx, w.data, d, s.spec);
            const typename W::Bor alg(typename W::Bor::Options().k_nearest_neighbors(s.op == OP_MST ? k : 1));
            const auto e = s.op == OP_MST ? alg.make_tree(std::move(t)) : alg.make_tree_2(std::move(t));
            for (const auto& x : e) o.push_back(std::get<0>(x)), o.push_back(std::get<1>(x)), put(o, double(std::get<2>(x)));
            break;
        }
        case OP_SLCT: {
            const typename W::Slct t(w.edges, typename W::Slct::Options().cut_level(radius).min_cluster_size(k));
            put_all(o, t.predict());
            break;
        }
        case OP_SLCT_PREDICT: put_all(o, w.slct->predict()); break;
        case OP_CONDENSED: {
            const typename W::Cct t(w.slct->root(), typename W::Cct::Options().min_cluster_size(k).allow_single_cluster(s.c & 1).return_leaf_nodes(s.c & 2));
            put_all(o, t.predict());
            break;
        }
        case OP_HDBSCAN: {
            auto idx = all_indices(n);
            using Alg = ffcl::HDBSCAN<typename W::Tree>;
            put_all(o, Alg(typename Alg::Options().k_nearest_neighbors(k).min_cluster_size(1 + s.b % 4).return_leaf_nodes(s.c & 2).allow_single_cluster(s.c & 1)).predict(make_index<T>(idx, w.data, d, s.spec)));
            break;
        }
        case OP_DBSCAN: {
            auto idx = all_indices(n);
            using Alg = ffcl::DBSCAN<typename W::Tree>;
            put_all(o, Alg(typename Alg::Options().min_samples(k).radius(radius)).predict(make_index<T>(idx, w.data, d, s.spec)));
            break;
        }
        case OP_LLOYD:
        case OP_HAMERLY: {
            ffcl::KMeans<T> m(std::min(k, n), typename ffcl::KMeans<T>::Options().max_iter(4).n_init(1 + s.b % 3).early_stopping(s.c & 1));
            put_all(o, s.op == OP_LLOYD ? m.template fit<ffcl::Lloyd>(first, last, d) : m.template fit<ffcl::Hamerly>(first, last, d));
            break;
        }
        case OP_KMEANS_PREDICT: {
            // all samples, all but the last or all but the first: as many, but others
            const auto from = first + long(s.b % 3 == 2 ? d : 0), to = last - long(s.b % 3 == 1 ? d : 0);
            put_all(o, w.kmeans->predict(from, to, d));
            put_all(o, w.kmeans->forward(from, to, d));
            break;
        }
        case OP_PAM: {
            ffcl::KMedoids<T> m(2, typename ffcl::KMedoids<T>::Options().max_iter(3).n_init(1 + s.b % 3));
            put_all(o, m.template fit<ffcl::FasterPAM>(*w.matrix));
            break;
        }
        case OP_PAM_DATA: {
            ffcl::KMedoids<T, false> m(2, typename ffcl::KMedoids<T, false>::Options().max_iter(2).n_init(1));
            put_all(o, m.template fit<ffcl::FasterPAM>(first, last, d));
            break;
        }
        case OP_MSC: {
            ffcl::KMedoids<T> m(3, typename ffcl::KMedoids<T>::Options().max_iter(2).n_init(1));
            put_all(o, m.template fit<ffcl::FasterMSC>(first, last, d));
            break;
        }
        case OP_KMEDOIDS_PREDICT:
            put_all(o, w.kmedoids->predict(first, last, d));
            put_all(o, w.kmedoids->forward(*w.matrix));
            break;
        case OP_MATRIX: {
            const typename W::Matrix m(first, last, d);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j) put(o, double(m(i, j)));
            break;
        }
        case OP_DYNAMIC: {
            const ffcl::datastruct::PairwiseDistanceMatrixDynamic<It> m(first, last, d);
            for (std::size_t i = 0; i < n; ++i) put(o, double(m(i, s.b % n)));
            break;
        }
        case OP_TRANSPOSE: {
            const auto [t, r, c] = ffcl::common::math::linear_algebra::transpose(first, last, d);
            put_all(o, t);
            o.push_back(r);
            o.push_back(c);
            break;
        }
        case OP_PLUSPLUS: put_all(o, ffcl::kmeansplusplus::make_centroids(first, last, d, std::min(k, n))); break;
        case OP_SAMPLES: {
            auto idx = all_indices(n);
            put_all(o, rnd::select_n_elements(idx.begin(), idx.end(), s.b % (n + 1)));
            put_all(o, rnd::make_n_elements_from_interval<std::size_t>(s.b % (n + 1), {0, n}));
            put_all(o, rnd::select_n_random_samples(first, last, d, s.b % (n + 1)));
            put_all(o, rnd::select_n_random_samples_from_indices(idx.begin(), idx.end(), first, last, d, s.c % (n + 1)));
            break;
        }
        case OP_INIT:
            put_all(o, rnd::init_uniform(first, last, d, std::min(k, n)));
            put_all(o, rnd::init_spatial_uniform(first, last, d, k));
            break;
        case OP_DRAWS: {
            rnd::uniform_distribution<T>   u(T(-1), T(3));
            rnd::uniform_distribution<int> v(-3, 9);
            for (int i = 0; i < 3; ++i) put(o, double(u())), put(o, double(v()));
            break;
        }
        case OP_ALIAS: {
            std::vector<T> p;
            for (std::size_t i = 0; i < n; ++i) p.push_back(T(1 + (s.b >> (i % 40)) % 5));
            rnd::VosesAliasMethod<T> a(p);
            for (int i = 0; i < 4; ++i) o.push_back(a());
            break;
        }
        case OP_SILHOUETTE:
            put_all(o, ffcl::common::math::heuristics::silhouette(first, last, d, w.labels.begin(), w.labels.end()));
            break;
        case OP_UF: {
            ffcl::datastruct::UnionFind<std::size_t> u(n);
            uint64_t                                 x = s.a;
            for (std::size_t i = 0; i + 1 < n; ++i) x = x * 6364136223846793005ull + 1442695040888963407ull, o.push_back(u.merge((x >> 33) % n, (x >> 20) % n));
            const auto moved = std::move(u);
            for (std::size_t i = 0; i < n; ++i) o.push_back(moved.find(i)), o.push_back(w.uf->find(i));
            // from given groups
            auto labels = std::make_unique<std::size_t[]>(n);
            for (std::size_t i = 0; i < n; ++i) labels[i] = i - i % 2;
            ffcl::datastruct::UnionFind<std::size_t> u2(n, std::move(labels));
            for (std::size_t i = 0; i + 1 < n; ++i) x = x * 6364136223846793005ull + 1442695040888963407ull, o.push_back(u2.merge((x >> 33) % n, (x >> 20) % n));
            for (std::size_t i = 0; i < n; ++i) o.push_back(u2.find(i));
            break;
        }
        case OP_COPIES: {
            typename W::Tree       copy(*w.tree);
            typename W::Tree       moved(std::move(copy));
            typename W::Searcher   a(moved);
            typename W::Searcher   b(a);
            typename W::Searcher   c(std::move(moved));
            put_answer(o, b(buf::Unsorted(q.begin(), q.end(), k)));
            put_answer(o, c(buf::Unsorted(q.begin(), q.end(), k)));
            auto sl  = *w.slct;
            auto sl2 = std::move(sl);
            put_all(o, sl2.predict());
            break;
        }
        case OP_LIVES: {  // what was copied or moved out of lives on without its source
            auto idx   = all_indices(n);
            auto tree  = std::make_unique<typename W::Tree>(make_index<T>(idx, w.data, d, s.spec));
            auto copy  = std::make_unique<typename W::Tree>(*tree);
            tree.reset();
            put_tree(o, *copy);
            auto moved = std::make_unique<typename W::Tree>(std::move(*copy));
            copy.reset();
            auto one = std::make_unique<typename W::Searcher>(*moved);
            auto two = std::make_unique<typename W::Searcher>(std::move(*moved));
            moved.reset();
            put_answer(o, (*one)(buf::Unsorted(q.begin(), q.end(), k)));
            auto three = std::make_unique<typename W::Searcher>(*one);
            one.reset();
            put_answer(o, (*two)(buf::Unsorted(bnd::BallView<It>(q.begin(), q.end(), radius))));
            two.reset();
            put_answer(o, (*three)(buf::Unsorted(q.begin(), q.end(), k)));
            auto slct = std::make_unique<typename W::Slct>(w.edges, typename W::Slct::Options().cut_level(radius).min_cluster_size(k));
            auto sl2  = std::make_unique<typename W::Slct>(*slct);
            slct.reset();
            put_all(o, sl2->predict());
            auto cct = std::make_unique<typename W::Cct>(sl2->root(), typename W::Cct::Options().min_cluster_size(k).allow_single_cluster(s.c & 1));
            auto cc2 = std::make_unique<typename W::Cct>(*cct);
            cct.reset();
            put_all(o, cc2->predict());
            auto cc3 = std::make_unique<typename W::Cct>(std::move(*cc2));
            cc2.reset();
            put_all(o, cc3->predict());
            auto own = std::make_unique<std::unordered_set<std::size_t>>(w.excluded);
            auto b1  = std::make_unique<buf::WithMemory<It>>(q.begin(), q.end(), std::move(*own), k);
            own.reset();
            auto b2 = std::make_unique<buf::WithMemory<It>>(*b1);
            b1.reset();
            auto b3 = (*three)(std::move(*b2));
            b2.reset();
            put_answer(o, b3);
            break;
        }
        case OP_ASSIGN: {  // over an object that already holds something
            const std::size_t      half = std::max<std::size_t>(1, n / 2);
            typename W::Matrix     m(first, first + long(half * d), d);
            m = *w.matrix;
            for (std::size_t i = 0; i < n; ++i) put(o, double(m(i, s.b % n)));
            typename W::Matrix m2(first, first + long(half * d), d);
            m2 = std::move(m);
            for (std::size_t i = 0; i < n; ++i) put(o, double(m2(s.b % n, i)));
            ffcl::datastruct::UnionFind<std::size_t> a(half), b(n);
            b.merge(0, s.b % n);
            a.merge(0, half - 1);
            a = std::move(b);
            for (std::size_t i = 0; i < n; ++i) o.push_back(a.find(i));
            typename W::Slct sl(w.edges, typename W::Slct::Options().cut_level(radius).min_cluster_size(k));
            typename W::Cct  cc(sl.root(), typename W::Cct::Options().min_cluster_size(k));
            sl = *w.slct;
            put_all(o, sl.predict());
            cc = typename W::Cct(sl.root(), typename W::Cct::Options().min_cluster_size(1 + s.b % 3));
            put_all(o, cc.predict());
            buf::Unsorted<It> x(q.begin(), q.end(), k), y(q.begin(), q.end());
            x = (*w.searcher)(std::move(x));
            y = x;
            put_answer(o, y);
            ffcl::KMeans<T> km(1);
            km = *w.kmeans;
            put_all(o, km.predict(first, last, d));
            break;
        }
        case OP_SAVE_TREE:
            if (!save_to(*w.tree, path)) throw std::runtime_error("not saved");
            put_file(o, path);
            break;
        case OP_SAVE_SLCT:
            if (!save_to(*w.slct, path)) throw std::runtime_error("not saved");
            put_file(o, path);
            break;
    }
    return o;
}
}  // namespace scn
