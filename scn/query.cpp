// P10: nearest-neighbour and bounded queries on one shared index, alone and from several threads.
#include "tree.hpp"

#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"

#include <unordered_set>

namespace {
using namespace scn;
namespace buf = ffcl::search::buffer;
namespace bnd = ffcl::datastruct::bounds;

enum Kind { PLAIN, ALL, BALL, BALLVIEW, BOX, BATCH, MEM_OWNED, MEM_REF, MEM_RANGE, UNION, MEM_BALL, UNION_BALL, BALL_K, BOX_K, BOX_LEN, BOX_LEN_K, MEM_BOX, UNION_K_BALL, NKINDS };

template <typename T>
struct Query {
    unsigned                        kind = 0;
    std::vector<T>                  q;  // query position
    std::size_t                     k = 1;
    T                               radius{};
    std::vector<T>                  lo, hi;  // box
    std::unordered_set<std::size_t> excluded;
    std::size_t                     rep = 0;  // a sample of the component to avoid
    unsigned                        via = 0;  // how the buffer reaches the index
    std::vector<std::size_t>        many;     // positions (samples) and limits of a longer batch
};
template <typename T>
struct Answer {
    std::vector<std::size_t> idx;
    std::vector<T>           dist;
    std::size_t              closest = 0;
    T                        closest_d{}, furthest_d{};
    std::size_t              furthest = 0;
    bool                     operator==(const Answer& o) const {
        return idx == o.idx && dist == o.dist && closest == o.closest && closest_d == o.closest_d && furthest_d == o.furthest_d && furthest == o.furthest;
    }
};
template <typename B>
auto answer_of(const B& b) {
    using T = typename B::DistanceType;
    Answer<T> a;
    a.idx        = b.indices();
    a.dist       = b.distances();
    SIM_CHECK(b.size() == a.idx.size() && b.empty() == a.idx.empty(), "result buffer reports %zu entries but lists %zu", b.size(), a.idx.size());
    SIM_CHECK(b.indices_const_ref() == a.idx && b.distances_const_ref() == a.dist, "result accessors disagree");
    if (!a.idx.empty()) {
        a.closest    = b.closest_index();
        a.closest_d  = b.closest_distance();
        a.furthest_d = b.furthest_distance();
        a.furthest   = b.furthest_index();
    }
    return a;
}

template <typename T>
struct World {
    std::vector<T>                         data;
    std::size_t                            n = 0, d = 0;
    std::vector<std::size_t>               members;  // indexed samples, original order
    std::vector<std::size_t>               comp;     // component of every sample (reference)
    ffcl::datastruct::UnionFind<std::size_t> uf{1};
};

// the length of side j of the box: an integer box of length n holds n values
template <typename T>
T length_of(const Query<T>& q, std::size_t j) {
    return T(q.hi[j] - q.lo[j]) + (std::is_integral<T>::value ? T(1) : T(0));
}
// one or two indexes that hold the data between them: a buffer handed on from one to the next gathers the answer of both
template <typename S>
struct Chain {
    const S* first;
    const S* second;  // may be missing
    unsigned via;
    template <typename B>
    B pass(B&& b) const {
        B r = (*first)(std::move(b));
        return second ? (*second)(std::move(r)) : r;
    }
    template <typename B>
    B operator()(B&& b) const {
        static_assert(!std::is_reference<B>::value, "a buffer of its own");
        switch (via) {
            case 1: {  // a copy asks, the original is not affected by it
                B copy(b);
                B one = pass(std::move(copy));
                B two = pass(std::move(b));
                SIM_CHECK(one.indices() == two.indices() && one.distances() == two.distances(), "a copied query buffer and its original got different answers");
                return two;
            }
            case 2: {  // buffers in a container that grows
                std::vector<B> v;
                v.push_back(b);
                v.push_back(std::move(b));
                v.push_back(v[1]);
                B one = pass(std::move(v[2]));
                B two = pass(std::move(v[1]));
                SIM_CHECK(one.indices() == two.indices() && one.distances() == two.distances(), "a query buffer moved about in a container and its copy got different answers");
                return two;
            }
            case 3: {  // the answer is copied and handed out, its original dies
                auto held = std::make_unique<B>(pass(std::move(b)));
                B    copy(*held);
                held.reset();
                return copy;
            }
            default: return pass(std::move(b));
        }
    }
};
template <typename T, typename S>
std::vector<Answer<T>> ask(const S& index, const S* rest, const Query<T>& q, const World<T>& w) {
    const Chain<S> searcher{&index, rest, q.via};
    using It  = typename std::vector<T>::iterator;
    auto  pos = q.q;  // the caller's own copy of the position
    It    f = pos.begin(), l = pos.end();
    using Vec = ffcl::datastruct::FeaturesVector<T, 0>;
    using Seg = bnd::segment::LowerBoundAndUpperBound<T>;
    using Box = bnd::AABBWithCentroid<Seg>;
    auto box  = [&] {
        std::vector<Seg> segs;
        for (std::size_t j = 0; j < q.lo.size(); ++j) segs.emplace_back(q.lo[j], q.hi[j]);
        return Box(typename Box::SegmentsType(std::move(segs)));
    };
    using SegLen = bnd::segment::LowerBoundAndLength<T>;
    using BoxLen = bnd::AABBWithCentroid<SegLen>;
    auto box_len = [&] {
        std::vector<SegLen> segs;
        for (std::size_t j = 0; j < q.lo.size(); ++j) segs.emplace_back(q.lo[j], length_of(q, j));
        return BoxLen(typename BoxLen::SegmentsType(std::move(segs)));
    };
    switch (q.kind) {
        case BOX_LEN: return {answer_of(searcher(buf::Unsorted(box_len())))};
        case BOX_LEN_K: return {answer_of(searcher(buf::Unsorted(box_len(), q.k)))};
        case MEM_BOX: return {answer_of(searcher(buf::WithMemory<typename Box::IteratorType, Box>(box(), q.excluded, q.k)))};
        case UNION_K_BALL: return {answer_of(searcher(buf::WithUnionFind<It, bnd::BallView<It>>(bnd::BallView<It>(f, l, q.radius), w.uf, q.rep, q.k)))};
        case PLAIN: return {answer_of(searcher(buf::Unsorted(f, l, q.k)))};
        case ALL: return {answer_of(searcher(buf::Unsorted(f, l)))};
        case BALL: return {answer_of(searcher(buf::Unsorted(bnd::Ball<T>(Vec(pos), q.radius))))};
        case BALL_K: return {answer_of(searcher(buf::Unsorted(bnd::Ball<T>(Vec(pos), q.radius), q.k)))};
        case BALLVIEW: return {answer_of(searcher(buf::Unsorted(bnd::BallView<It>(f, l, q.radius))))};
        case BOX: return {answer_of(searcher(buf::Unsorted(box())))};
        case BOX_K: return {answer_of(searcher(buf::Unsorted(box(), q.k)))};
        case BATCH: {
            using B = buf::Unsorted<It>;
            std::vector<B> batch;
            batch.emplace_back(f, l, q.k);
            batch.emplace_back(f, l, q.k + 1);
            batch.emplace_back(f, l);
            auto data = w.data;
            for (std::size_t s : q.many) batch.emplace_back(data.begin() + long(s * w.d), data.begin() + long((s + 1) * w.d), 1 + s % 4);
            auto                   got = index(std::move(batch));
            if (rest) got = (*rest)(std::move(got));
            std::vector<Answer<T>> r;
            for (const auto& b : got) r.push_back(answer_of(b));
            return r;
        }
        case MEM_OWNED: {
            auto own = q.excluded;
            return {answer_of(searcher(buf::WithMemory<It>(f, l, std::move(own), q.k)))};
        }
        case MEM_REF: return {answer_of(searcher(buf::WithMemory<It>(f, l, q.excluded, q.k)))};
        case MEM_RANGE: {
            auto own = q.excluded;
            return {answer_of(searcher(buf::WithMemory<It>(f, l, own.begin(), own.end(), q.k)))};
        }
        case MEM_BALL: return {answer_of(searcher(buf::WithMemory<It, bnd::BallView<It>>(bnd::BallView<It>(f, l, q.radius), q.excluded)))};
        case UNION: return {answer_of(searcher(buf::WithUnionFind<It>(f, l, w.uf, q.rep, q.k)))};
        default: return {answer_of(searcher(buf::WithUnionFind<It, bnd::BallView<It>>(bnd::BallView<It>(f, l, q.radius), w.uf, q.rep)))};
    }
}

const char* kind_name(unsigned k) {
    static const char* n[] = {"k nearest", "all nearest", "ball", "ball view", "box", "batch", "with owned exclusions", "with shared exclusions", "with a range of exclusions", "outside a component", "ball with exclusions", "ball outside a component", "k nearest in a ball", "k nearest in a box", "box given by its length", "k nearest in a box given by its length", "k nearest in a box with exclusions", "k nearest in a ball outside a component"};
    return n[k];
}

template <typename T>
void check_answer(const Query<T>& q, const World<T>& w, const Answer<T>& a, std::size_t k, bool limited) {
    const char* what = kind_name(q.kind);
    const bool  ball = q.kind == BALL || q.kind == BALLVIEW || q.kind == BALL_K || q.kind == MEM_BALL || q.kind == UNION_BALL || q.kind == UNION_K_BALL;
    const bool  len = q.kind == BOX_LEN || q.kind == BOX_LEN_K;
    const bool  isbox = q.kind == BOX || q.kind == BOX_K || q.kind == MEM_BOX || len;
    const bool  mem = q.kind == MEM_OWNED || q.kind == MEM_REF || q.kind == MEM_RANGE || q.kind == MEM_BALL || q.kind == MEM_BOX;
    const bool  uni = q.kind == UNION || q.kind == UNION_BALL || q.kind == UNION_K_BALL;
    std::vector<T> centre = q.q;
    if (isbox)
        for (std::size_t j = 0; j < w.d; ++j) {
            centre[j] = len ? bnd::segment::LowerBoundAndLength<T>(q.lo[j], length_of(q, j)).centroid() : bnd::segment::LowerBoundAndUpperBound<T>(q.lo[j], q.hi[j]).centroid();
            // distances are counted from the middle, for integers rounded to a neighbour
            const double middle = (double(q.lo[j]) + double(q.hi[j])) / 2, gap = std::is_integral<T>::value ? 1.0 : rel<T>() * (std::fabs(double(q.lo[j])) + std::fabs(double(q.hi[j])));
            SIM_CHECK(std::fabs(double(centre[j]) - middle) <= gap, "%s: the middle of a box from %.9g to %.9g is %.9g", what, double(q.lo[j]), double(q.hi[j]), double(centre[j]));
        }
    std::vector<double> sure, maybe;  // distances of the samples that qualify; and those on the rim of the ball
    std::set<std::size_t> in(w.members.begin(), w.members.end());
    auto state = [&](std::size_t i) {  // 0 no, 1 yes, 2 either
        if (!in.count(i)) return 0;
        if (mem && q.excluded.count(i)) return 0;
        if (uni && w.comp[i] == w.comp[q.rep]) return 0;
        const double dd = ref_distance(centre.data(), w.data.data() + i * w.d, w.d);
        if (ball) {
            const double r = double(q.radius);
            if (std::is_floating_point<T>::value && std::fabs(dd - r) <= rel<T>() * r) return 2;
            return dd < r ? 1 : 0;
        }
        if (isbox) {
            bool either = false;
            for (std::size_t j = 0; j < w.d; ++j) {
                const T x = w.data[i * w.d + j];
                // a border that the length cannot express exactly counts either way
                if (len && std::is_floating_point<T>::value && !(q.lo[j] + length_of(q, j) == q.hi[j] && double(q.hi[j]) - double(q.lo[j]) == double(length_of(q, j)))
                    && std::fabs(double(x) - double(q.hi[j])) <= 0.1 * rel<T>() * (std::fabs(double(q.lo[j])) + std::fabs(double(q.hi[j])))) {
                    either = true;
                    continue;
                }
                if (x < q.lo[j] || x > q.hi[j]) return 0;
            }
            if (either) return 2;
        }
        return 1;
    };
    for (std::size_t i : w.members) {
        const int    s  = state(i);
        const double dd = ref_distance(centre.data(), w.data.data() + i * w.d, w.d);
        if (s == 1) sure.push_back(dd);
        if (s) maybe.push_back(dd);
    }
    std::sort(sure.begin(), sure.end());
    std::sort(maybe.begin(), maybe.end());
    const std::size_t lo = limited ? std::min(k, sure.size()) : sure.size(), hi = limited ? std::min(k, maybe.size()) : maybe.size();
    SIM_CHECK(a.idx.size() == a.dist.size(), "%s: %zu indices but %zu distances", what, a.idx.size(), a.dist.size());
    SIM_CHECK(a.idx.size() >= lo && a.idx.size() <= hi, "%s query (k=%zu) returned %zu samples, %zu..%zu qualify", what, limited ? k : 0, a.idx.size(), lo, hi);
    std::set<std::size_t> seen;
    std::vector<double>   got;
    std::size_t           nearest = 0, furthest = 0;
    for (std::size_t m = 0; m < a.idx.size(); ++m) {
        SIM_CHECK(a.idx[m] < w.n && seen.insert(a.idx[m]).second, "%s query returned sample %zu twice or outside the dataset", what, a.idx[m]);
        SIM_CHECK(state(a.idx[m]) != 0, "%s query returned sample %zu which does not qualify", what, a.idx[m]);
        const double dd = ref_distance(centre.data(), w.data.data() + a.idx[m] * w.d, w.d);
        SIM_CHECK(near(dd, double(a.dist[m]), rel<T>(), 1e-30), "%s query reports distance %.9g for sample %zu at distance %.9g", what, double(a.dist[m]), a.idx[m], dd);
        got.push_back(double(a.dist[m]));
        if (a.dist[m] < a.dist[nearest]) nearest = m;
        if (a.dist[m] > a.dist[furthest]) furthest = m;
    }
    if (!got.empty()) {
        SIM_CHECK(a.closest_d == a.dist[nearest] && a.furthest_d == a.dist[furthest], "%s query: closest/furthest %.9g/%.9g but the list says %.9g/%.9g", what, double(a.closest_d), double(a.furthest_d), double(a.dist[nearest]), double(a.dist[furthest]));
        auto at = [&](std::size_t i) { return a.dist[std::size_t(std::find(a.idx.begin(), a.idx.end(), i) - a.idx.begin())]; };
        SIM_CHECK(seen.count(a.closest) && at(a.closest) == a.closest_d, "%s query names sample %zu as the closest", what, a.closest);
        SIM_CHECK(seen.count(a.furthest) && at(a.furthest) == a.furthest_d, "%s query names sample %zu as the furthest", what, a.furthest);
    }
    std::sort(got.begin(), got.end());
    for (std::size_t m = 0; m < got.size() && m < sure.size() && sure.size() == maybe.size(); ++m)
        SIM_CHECK(near(got[m], sure[m], rel<T>(), 1e-30), "%s query (k=%zu of %zu): neighbour %zu is at %.9g, the true one is at %.9g", what, limited ? k : 0, sure.size(), m, got[m], sure[m]);
}

template <typename T>
Query<T> draw_query(sim::Rng& g, const World<T>& w) {
    Query<T> q;
    q.kind              = unsigned(g.below(NKINDS));
    const std::size_t s = g.below(w.n);
    q.q.assign(w.data.begin() + long(s * w.d), w.data.begin() + long((s + 1) * w.d));
    const std::size_t how = g.below(3);
    const std::size_t o = g.below(w.n);
    for (std::size_t j = 0; j < w.d; ++j) {
        if (how == 1) q.q[j] = T((double(q.q[j]) + double(w.data[o * w.d + j])) / 2);                       // between two samples
        if (how == 2) q.q[j] = T(double(q.q[j]) + (g.unit() - 0.5) * 4 * (1 + std::fabs(double(q.q[j]))));  // anywhere
    }
    const std::size_t kmax = g.below(3) == 0 ? w.n + 2 : 4;
    q.k                    = 1 + g.below(kmax);
    // a radius between nothing and everything: distance to some sample, stretched
    const double dd = ref_distance(q.q.data(), w.data.data() + g.below(w.n) * w.d, w.d);
    q.radius        = T(dd * (g.below(4) == 0 ? 1.0 : 0.3 + g.unit() * 1.5) + (g.below(3) ? 0.0 : 0.5));
    if (!(q.radius > T(0))) q.radius = T(1);
    const std::size_t a = g.below(w.n), b = g.below(w.n);
    for (std::size_t j = 0; j < w.d; ++j) {
        T x = w.data[a * w.d + j], y = w.data[b * w.d + j];
        q.lo.push_back(std::min(x, y));
        q.hi.push_back(std::max(x, y));
        if (g.below(3) == 0) q.hi[j] = T(double(q.hi[j]) + 1.25 + std::fabs(double(q.hi[j])) * 0.125);
    }
    const std::size_t nex = g.below(4) == 0 ? g.below(w.n + 1) : g.below(4);
    for (std::size_t i = 0; i < nex; ++i) q.excluded.insert(g.below(w.n));
    q.rep = g.below(w.n);
    q.via = g.below(2) ? 0 : unsigned(1 + g.below(3));
    if (q.kind == BATCH)
        for (std::size_t i = g.below(2) ? g.below(5) : g.below(g.below(4) ? 40 : 300); i > 0; --i) q.many.push_back(g.below(w.n));
    return q;
}

template <typename T>
World<T> make_world(sim::Rng& g, std::size_t n, std::size_t d, unsigned shape) {
    World<T> w;
    w.n    = n;
    w.d    = d;
    w.data = make_values<T>(n, d, shape, g);
    w.members = g.below(3) == 0 ? some_indices(n, 1 + g.below(n), g) : all_indices(n);
    w.uf   = ffcl::datastruct::UnionFind<std::size_t>(n);
    w.comp = all_indices(n);
    const std::size_t merges = g.below(n + 1);
    for (std::size_t m = 0; m < merges; ++m) {
        const std::size_t a = g.below(n), b = g.below(n);
        w.uf.merge(a, b);
        const std::size_t ca = w.comp[a], cb = w.comp[b];
        for (auto& c : w.comp)
            if (c == cb) c = ca;
    }
    return w;
}

template <typename T>
void check_all(const Query<T>& q, const World<T>& w, const std::vector<Answer<T>>& a) {
    if (q.kind == BATCH) {
        check_answer(q, w, a[0], q.k, true);
        check_answer(q, w, a[1], q.k + 1, true);
        check_answer(q, w, a[2], 0, false);
        SIM_CHECK(a.size() == 3 + q.many.size(), "%zu answers to a batch of %zu queries", a.size(), 3 + q.many.size());
        for (std::size_t i = 0; i < q.many.size(); ++i) {
            Query<T> one = q;
            one.q.assign(w.data.begin() + long(q.many[i] * w.d), w.data.begin() + long((q.many[i] + 1) * w.d));
            check_answer(one, w, a[3 + i], 1 + q.many[i] % 4, true);
        }
        return;
    }
    const bool limited = q.kind == PLAIN || q.kind == MEM_OWNED || q.kind == MEM_REF || q.kind == MEM_RANGE || q.kind == UNION || q.kind == BALL_K || q.kind == BOX_K || q.kind == BOX_LEN_K || q.kind == MEM_BOX || q.kind == UNION_K_BALL;
    check_answer(q, w, a[0], q.k, limited);
}

template <typename T>
void run(bool threads) {
    sim::Rng          g     = sim::rng("world");
    Far               far(2);
    const std::size_t n     = far("n", 1, sim_tier() ? 120 : (sim::pick("big", 0, 7) == 0 ? 70 : 24), 300, 600, 1060);
    const std::size_t d     = far("d", 1, 4, 40);
    const unsigned    shape = std::is_floating_point<T>::value ? unsigned(sim::pick("shape", 0, LAST_SHAPE)) : pick_shape();
    World<T>          w     = make_world<T>(g, n, d, shape);
    const auto        data0 = w.data;
    auto              idx   = w.members;
    const TreeSpec    spec  = draw_spec(g, n, d);
    pick_entropy();
    using Tree = typename Space<T>::Tree;
    // all of it in one index, or the last part in a second one
    std::vector<std::size_t> idx2;
    if (idx.size() > 1 && sim::pick("two", 0, 3) == 0) {
        const std::size_t cut = 1 + g.below(idx.size() - 1);
        idx2.assign(idx.begin() + long(cut), idx.end());
        idx.resize(cut);
    }
    std::unique_ptr<ffcl::search::Searcher<Tree>> rest;
    if (!idx2.empty()) rest = std::make_unique<ffcl::search::Searcher<Tree>>(make_index<T>(idx2, w.data, d, draw_spec(g, n, d)));
    auto tree = make_index<T>(idx, w.data, d, spec);
    // a searcher over a copy of the index, or one that takes the index over
    const bool       moved = sim::pick("moved", 0, 1) != 0;
    Tree             other(tree);
    const auto       searcher = moved ? ffcl::search::Searcher<Tree>(std::move(other)) : ffcl::search::Searcher<Tree>(tree);
    SIM_CHECK(searcher.n_samples() == n && searcher.n_features() == d, "searcher reports %zu samples of %zu features, expected %zu of %zu", searcher.n_samples(), searcher.n_features(), n, d);
    const std::size_t nq = sim::pick("queries", 1, 4), nt = threads ? sim::pick("threads", 2, 3) : 1;
    std::vector<std::vector<Query<T>>> qs(nt);
    for (auto& v : qs)
        for (std::size_t i = 0; i < nq; ++i) v.push_back(draw_query(g, w));
    std::vector<std::vector<std::vector<Answer<T>>>> got(nt);
    auto job = [&](std::size_t t, std::vector<std::vector<Answer<T>>>& out) {
        for (const auto& q : qs[t]) out.push_back(ask(searcher, rest.get(), q, w));
    };
    if (threads) {
        std::vector<std::function<void()>> jobs;
        for (std::size_t t = 0; t < nt; ++t) jobs.push_back([&, t] { job(t, got[t]); });
        sim::concurrently(jobs, 3);
    } else {
        job(0, got[0]);
    }
    if (!threads && !rest && sim::pick("traverser", 0, 2) == 0) {  // the traversal below the searcher, used directly
        const ffcl::search::TreeTraverser<Tree> traverser(tree);
        SIM_CHECK(traverser.n_samples() == n && traverser.n_features() == d, "a traverser reports %zu samples of %zu features, expected %zu of %zu", traverser.n_samples(), traverser.n_features(), n, d);
        for (const auto& q : qs[0]) check_all(q, w, ask(traverser, decltype(&traverser)(nullptr), q, w));
    }
    for (std::size_t i = 0; i < n; ++i) {
        const auto f = searcher.features_range_first(i), l = searcher.features_range_last(i);
        SIM_CHECK(std::size_t(l - f) == d && std::equal(f, l, w.data.begin() + long(i * d)), "the searcher reports other features for sample %zu", i);
    }
    SIM_CHECK(std::memcmp(data0.data(), w.data.data(), data0.size() * sizeof(T)) == 0, "a query changed the dataset");
    uint64_t h = 7;
    for (std::size_t t = 0; t < nt; ++t)
        for (std::size_t i = 0; i < nq; ++i) {
            check_all(qs[t][i], w, got[t][i]);
            for (const auto& a : got[t][i]) h = hash_values(a.idx, h);
        }
    if (threads)
        for (std::size_t t = 0; t < nt; ++t) {
            std::vector<std::vector<Answer<T>>> alone;
            job(t, alone);
            SIM_CHECK(alone == got[t], "a query answered differently while other threads were querying the same index");
        }
    sim::note_state(h);
    if (n > 1) sim::nontrivial();
}
void dispatch(bool threads) {
    switch (sim::pick("type", 0, 5)) {
        case 0: return run<double>(threads);
        case 1: return run<int>(threads);
        default: return run<float>(threads);
    }
}

// one query sequence that remembers what it returned: together the answers enumerate the dataset in order of distance
template <typename T>
void walk() {
    sim::Rng          g = sim::rng("world");
    const std::size_t n = sim::pick("n", 1, 20), d = sim::pick("d", 1, 3);
    World<T>          w = make_world<T>(g, n, d, pick_shape());
    auto              idx = w.members;
    auto              tree = make_index<T>(idx, w.data, d, draw_spec(g, n, d));
    const ffcl::search::Searcher<typename Space<T>::Tree> searcher(tree);
    std::unordered_set<std::size_t> visited;
    Query<T>                        q = draw_query(g, w);
    q.kind                            = MEM_REF;
    double            last = 0;
    const std::size_t m    = w.members.size();
    for (std::size_t step = 0; step <= m && visited.size() < m; ++step) {
        q.k        = 1 + g.below(3);
        q.excluded = visited;
        const auto a = ask(searcher, decltype(&searcher)(nullptr), q, w);
        check_all(q, w, a);
        std::vector<T> sorted = a[0].dist;
        std::sort(sorted.begin(), sorted.end());
        for (auto x : sorted) SIM_CHECK(double(x) >= last * (1 - rel<T>()), "a later query returned a sample closer than one already returned");
        if (!sorted.empty()) last = double(sorted.back());
        for (auto i : a[0].idx) SIM_CHECK(visited.insert(i).second, "sample %zu returned again although it was remembered", i);
    }
    SIM_CHECK(visited.size() == m, "queries that remember their answers enumerated %zu of %zu samples", visited.size(), m);
    sim::note_state(hash_values(std::vector<std::size_t>(visited.begin(), visited.end())));
    sim::nontrivial();
}
}  // namespace

SIM_SCENARIO(P10, queries, 5) { dispatch(false); }
SIM_SCENARIO(P10, threads, 3) { dispatch(true); }
SIM_SCENARIO(P10, enumerate, 2) { sim::pick("type", 0, 2) == 0 ? walk<int>() : walk<float>(); }
