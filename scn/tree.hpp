// Shared by the scenarios that use the k-d tree: datasets, index options and building.
#pragma once
#include "util.hpp"

#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"

namespace scn {

template <typename T>
struct Space {
    using Idx   = std::vector<std::size_t>;
    using Tree  = ffcl::datastruct::KDTree<Idx::iterator, typename std::vector<T>::iterator>;
    using Cycle = ffcl::datastruct::kdtree::policy::CycleThroughAxesBuild<Idx::iterator, typename std::vector<T>::iterator>;
    using Var   = ffcl::datastruct::kdtree::policy::HighestVarianceBuild<Idx::iterator, typename std::vector<T>::iterator>;
    using Wide  = ffcl::datastruct::kdtree::policy::MaximumSpreadBuild<Idx::iterator, typename std::vector<T>::iterator>;
};

// how an index is built; drawn from the seed
struct TreeSpec {
    unsigned                 policy    = 0;  // 0 cycle, 1 variance, 2 spread, 3 library defaults
    double                   rate      = 0.1;
    std::vector<std::size_t> mask;
    std::size_t              bucket    = 40;
    std::size_t              max_depth = 1000;
    bool                     limited   = false;  // the depth limit was set
};
inline TreeSpec draw_spec(sim::Rng& g, std::size_t n, std::size_t d, bool defaults_too = true) {
    TreeSpec s;
    s.policy = unsigned(g.below(defaults_too ? 8 : 7));
    s.policy = s.policy == 7 ? 3 : s.policy % 3;
    static const double rates[] = {0.0, 0.1, 0.5, 1.0};
    s.rate                      = rates[g.below(4)];
    if (d > 1 && g.below(3) == 0) {
        const std::size_t m = 1 + g.below(d);
        std::vector<std::size_t> all(d);
        std::iota(all.begin(), all.end(), std::size_t(0));
        for (std::size_t i = 0; i < m; ++i) std::swap(all[i], all[i + g.below(d - i)]);
        s.mask.assign(all.begin(), all.begin() + long(m));
    }
    static const std::size_t buckets[] = {1, 1, 1, 2, 3, 5, 8, 40};
    s.bucket                           = buckets[g.below(8)];
    if (g.below(3) == 0) {
        s.limited   = true;
        s.max_depth = g.below(6);
    } else {
        s.max_depth = n + 1;
    }
    return s;
}
template <typename T>
typename Space<T>::Tree::Options make_options(const TreeSpec& s) {
    using S = Space<T>;
    typename S::Tree::Options o;
    if (s.policy == 3) return o;
    o.bucket_size(s.bucket).max_depth(s.max_depth);
    if (s.policy == 0) {
        typename S::Cycle p;
        if (!s.mask.empty()) p.feature_mask(s.mask);
        o.axis_selection_policy(p);
    } else if (s.policy == 1) {
        typename S::Var p;
        p.sampling_rate(s.rate);
        if (!s.mask.empty()) p.feature_mask(s.mask);
        o.axis_selection_policy(p);
    } else {
        typename S::Wide p;
        if (!s.mask.empty()) p.feature_mask(s.mask);
        o.axis_selection_policy(p);
    }
    return o;
}
template <typename T>
typename Space<T>::Tree make_index(std::vector<std::size_t>& idx, std::vector<T>& data, std::size_t d, const TreeSpec& s) {
    return typename Space<T>::Tree(idx.begin(), idx.end(), data.begin(), data.end(), d, make_options<T>(s));
}
inline std::vector<std::size_t> all_indices(std::size_t n) {
    std::vector<std::size_t> v(n);
    std::iota(v.begin(), v.end(), std::size_t(0));
    return v;
}
// a random subset of [0, n) in random order, of size m
inline std::vector<std::size_t> some_indices(std::size_t n, std::size_t m, sim::Rng& g) {
    auto v = all_indices(n);
    for (std::size_t i = 0; i < m; ++i) std::swap(v[i], v[i + g.below(n - i)]);
    v.resize(m);
    return v;
}
}  // namespace scn
