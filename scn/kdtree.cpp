// P09: the k-d tree partitions the data.
#include "tree.hpp"

using namespace scn;

namespace {

template <typename T>
struct TreeCheck {
    const std::vector<T>&    data;
    std::size_t              d;
    const TreeSpec&          spec;
    std::vector<std::size_t> seen;
    std::vector<double>      dump;
    bool                     split = false;

    template <typename Node>
    static void gather(const Node& node, std::vector<std::size_t>& s) {
        s.insert(s.end(), node->indices_range_.first, node->indices_range_.second);
        if (node->left_) gather(node->left_, s);
        if (node->right_) gather(node->right_, s);
    }
    template <typename Node>
    std::vector<std::size_t> sub_of(const Node& node) const {
        std::vector<std::size_t> s;
        s.reserve(data.size() / d);
        if (spec.policy == 1 && spec.rate == 1.0) gather(node, s);
        return s;
    }
    // the axis is the one the policy asks for (with sub-sampling any axis may be chosen)
    template <typename N>
    void check_axis(const N& node, std::size_t axis, std::size_t depth, const std::vector<std::size_t>& sub) {
        if (spec.policy == 3) return;
        std::vector<std::size_t> axes = spec.mask;
        if (axes.empty()) axes = all_indices(d);
        if (spec.policy == 0) {
            SIM_CHECK(axis == axes[depth % axes.size()], "a node at depth %zu cuts along axis %zu instead of the next one in turn", depth, axis);
        } else if (spec.policy == 2) {
            for (auto a : axes)
                SIM_CHECK(node.bound_.segment_at(axis).upper_bound() - node.bound_.segment_at(axis).lower_bound() >=
                              node.bound_.segment_at(a).upper_bound() - node.bound_.segment_at(a).lower_bound(),
                          "a node cuts along axis %zu although axis %zu is wider", axis, a);
        } else if (spec.rate == 1.0 && sub.size() > 2 && std::is_floating_point<T>::value) {
            auto variance = [&](std::size_t a) {
                double m = 0, v = 0;
                for (auto i : sub) m += double(data[i * d + a]);
                m /= double(sub.size());
                for (auto i : sub) v += (double(data[i * d + a]) - m) * (double(data[i * d + a]) - m);
                return v;
            };
            double big = 0;
            for (auto x : data) big = std::max(big, std::fabs(double(x)));
            // what a rounded mean adds to the sum of squares
            const double delta = 4 * double(sub.size()) * double(std::numeric_limits<T>::epsilon()) * big, slack = double(sub.size()) * delta * delta;
            for (auto a : axes)
                SIM_CHECK(variance(axis) >= variance(a) * 0.99 - slack, "a node cuts along axis %zu with variance %g although that of axis %zu is %g", axis,
                          variance(axis), a, variance(a));
        }
    }
    template <typename Node>
    std::vector<std::size_t> visit(const Node& node, const Node& parent, std::size_t depth) {
        SIM_CHECK(bool(node), "a k-d tree node is missing a child");
        SIM_CHECK(node->parent_.lock() == parent, "a k-d tree node does not point to its parent");
        std::vector<std::size_t> own(node->indices_range_.first, node->indices_range_.second), sub = own;
        dump.push_back(double(node->cut_axis_feature_index_));
        for (auto i : own) {
            SIM_CHECK(i * d + d <= data.size(), "a k-d tree node holds sample %zu outside the dataset", i);
            dump.push_back(double(i));
        }
        const std::size_t limit = spec.policy == 3 ? 40 : spec.bucket;
        if (node->is_leaf()) {
            const bool by_depth = spec.policy != 3 && spec.limited && depth >= spec.max_depth;
            SIM_CHECK(own.size() <= limit || by_depth, "a leaf at depth %zu holds %zu samples although the leaf size is %zu", depth,
                      own.size(), limit);
        } else {
            split = true;
            SIM_CHECK(!(spec.policy != 3 && spec.limited) || depth < spec.max_depth, "a node at depth %zu is split although the depth limit is %zu",
                      depth, spec.max_depth);
            SIM_CHECK(node->left_ && node->right_, "an inner k-d tree node has only one child");
            const auto axis = node->cut_axis_feature_index_;
            SIM_CHECK(axis >= 0 && std::size_t(axis) < d, "a k-d tree node cuts along axis %ld of %zu", long(axis), d);
            if (spec.policy != 3 && !spec.mask.empty())
                SIM_CHECK(std::find(spec.mask.begin(), spec.mask.end(), std::size_t(axis)) != spec.mask.end(),
                          "a k-d tree node cuts along axis %ld, which the feature mask leaves out", long(axis));
            check_axis(*node, std::size_t(axis), depth, sub_of(node));
            SIM_CHECK(!own.empty(), "an inner k-d tree node has no pivot");
            const T cut = data[own[0] * d + std::size_t(axis)];
            auto    l = visit(node->left_, node, depth + 1), r = visit(node->right_, node, depth + 1);
            for (auto i : l)
                SIM_CHECK(data[i * d + std::size_t(axis)] <= cut, "sample %zu lies above the cut (%.9g > %.9g) but on the lower side", i,
                          double(data[i * d + std::size_t(axis)]), double(cut));
            for (auto i : r)
                SIM_CHECK(data[i * d + std::size_t(axis)] >= cut, "sample %zu lies below the cut (%.9g < %.9g) but on the upper side", i,
                          double(data[i * d + std::size_t(axis)]), double(cut));
            for (auto i : own) SIM_CHECK(data[i * d + std::size_t(axis)] == cut, "the pivots of a node differ along the cut");
            SIM_CHECK(l.size() + r.size() + own.size() > limit, "a node with %zu samples is split although the leaf size is %zu",
                      l.size() + r.size() + own.size(), limit);
            for (const auto& c : {node->left_, node->right_})
                for (std::size_t j = 0; j < d; ++j)
                    SIM_CHECK(c->bound_.segment_at(j).lower_bound() >= node->bound_.segment_at(j).lower_bound() &&
                                  c->bound_.segment_at(j).upper_bound() <= node->bound_.segment_at(j).upper_bound(),
                              "the bounding box of a child ([%.9g, %.9g]) sticks out of its parent's ([%.9g, %.9g]) along axis %zu", double(c->bound_.segment_at(j).lower_bound()), double(c->bound_.segment_at(j).upper_bound()), double(node->bound_.segment_at(j).lower_bound()), double(node->bound_.segment_at(j).upper_bound()), j);
            sub.insert(sub.end(), l.begin(), l.end());
            sub.insert(sub.end(), r.begin(), r.end());
        }
        for (auto i : sub)
            for (std::size_t j = 0; j < d; ++j) {
                const T x = data[i * d + j];
                SIM_CHECK(x >= node->bound_.segment_at(j).lower_bound() && x <= node->bound_.segment_at(j).upper_bound(),
                          "sample %zu is outside the bounding box of its node along axis %zu", i, j);
            }
        if (depth == 0) seen = sub;
        return sub;
    }
};

template <typename T>
std::vector<double> build_and_check(std::size_t n, std::size_t d, unsigned shape, uint64_t seed) {
    sim::Rng          g(seed);
    std::vector<T>    data = make_values<T>(n, d, shape, g), before = data;
    const std::size_t m   = n && g.below(4) == 0 ? 1 + g.below(n) : n;
    auto              idx = g.below(2) ? some_indices(n, m, g) : all_indices(n);
    idx.resize(m);
    auto           sorted = idx;
    const TreeSpec spec   = draw_spec(g, n, d);
    auto           tree   = make_index<T>(idx, data, d, spec);
    SIM_CHECK(data == before, "building an index changed the data");
    SIM_CHECK(tree.n_features() == d, "the index reports %zu features instead of %zu", tree.n_features(), d);
    SIM_CHECK(tree.begin() == data.begin() && tree.end() == data.end(), "the index does not refer to the caller's data");
    TreeCheck<T> c{data, d, spec, {}, {}};
    c.visit(tree.root(), decltype(tree.root()){}, 0);
    auto seen = c.seen, after = idx;
    std::sort(seen.begin(), seen.end());
    std::sort(after.begin(), after.end());
    std::sort(sorted.begin(), sorted.end());
    SIM_CHECK(after == sorted, "building an index did not just permute the index list");
    SIM_CHECK(seen == sorted, "the index does not hold every sample exactly once");
    for (std::size_t j = 0; m && j < d; ++j) {
        T lo = data[sorted[0] * d + j], hi = lo;
        for (auto i : sorted) lo = std::min(lo, data[i * d + j]), hi = std::max(hi, data[i * d + j]);
        SIM_CHECK(tree.root()->bound_.segment_at(j).lower_bound() == lo && tree.root()->bound_.segment_at(j).upper_bound() == hi,
                  "the bounding box of the whole index is not that of its samples along axis %zu", j);
    }
    // copies and moves are the same index
    auto         copy = tree;
    auto         moved = std::move(tree);
    TreeCheck<T> c2{data, d, spec, {}, {}}, c3{data, d, spec, {}, {}};
    c2.visit(copy.root(), decltype(copy.root()){}, 0);
    c3.visit(moved.root(), decltype(moved.root()){}, 0);
    SIM_CHECK(c2.dump == c.dump && c3.dump == c.dump && copy.n_samples() == moved.n_samples() && copy.n_samples() == n &&
                  moved.n_features() == d && copy.begin() == moved.begin(),
              "a copied or moved index differs from the original");
    if (c.split) sim::nontrivial();
    return c.dump;
}
std::function<std::vector<double>()> draw_job(sim::Rng& g, std::size_t most) {
    const unsigned    type  = unsigned(g.below(4));
    const unsigned    shape = unsigned(g.below(LAST_SHAPE + 1));
    const unsigned    far = unsigned(g.below(24));
    const bool        huge = g.below(160) == 0;
    const bool        giant = huge && (shape == UNIFORM || shape == OFFSET || shape == CLUSTERS);
    const std::size_t n = 1 + (giant ? 1024 + g.below(1200) : huge ? 260 + g.below(most) : g.below(4) ? g.below(40) : g.below(far == 0 ? most : 100)), d = 1 + g.below(far == 1 ? 40 : 4);
    const uint64_t    seed = g.next();
    return [=]() -> std::vector<double> {
        switch (type) {
            case 0: return build_and_check<double>(n, d, shape, seed);
            case 1: return build_and_check<int>(n, d, shape, seed);
            default: return build_and_check<float>(n, d, shape, seed);
        }
    };
}
}  // namespace

SIM_SCENARIO(P09, build, 4) {
    pick_entropy();
    sim::Rng g = sim::rng("job");
    sim::note_state(hash_values(draw_job(g, 400)()));
}
SIM_SCENARIO(P09, threads, 3) {
    pick_entropy();
    const unsigned threads = unsigned(sim::pick("threads", 2, 4));
    const uint64_t stream  = sim::pick("stream", 1, 1 << 20);
    sim::Rng       g       = sim::rng("jobs");
    std::vector<std::function<std::vector<double>()>> jobs;
    for (unsigned t = 0; t < threads; ++t) jobs.push_back(draw_job(g, 150));
    at_once_and_alone<std::vector<double>>(jobs, stream, "the indexes built");
}
