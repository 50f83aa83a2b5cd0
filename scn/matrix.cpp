// P01 pairwise distance matrix, P02 transposition.
#include "util.hpp"

#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"

using namespace scn;
namespace fd = ffcl::datastruct;

namespace {

template <typename M>
uint64_t matrix_hash(const M& m, std::size_t n) {
    uint64_t h = n;
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) h = sim::mix(h, fbits(double(m(i, j))));
    return h;
}

template <typename T, typename M>
void check_matrix(const M& m, const std::vector<T>& v, std::size_t n, std::size_t d, const char* who) {
    SIM_CHECK(m.n_rows() == n && m.n_columns() == n, "%s: matrix is %zux%zu for %zu samples", who, m.n_rows(),
              m.n_columns(), n);
    for (std::size_t i = 0; i < n; ++i) {
        SIM_CHECK(double(m(i, i)) == 0.0, "%s: distance from sample %zu to itself is %g", who, i, double(m(i, i)));
        for (std::size_t j = 0; j < n; ++j) {
            const double got = double(m(i, j)), want = ref_distance(&v[i * d], &v[j * d], d);
            SIM_CHECK(fbits(got) == fbits(double(m(j, i))), "%s: distance(%zu,%zu)=%g but distance(%zu,%zu)=%g", who, i,
                      j, got, j, i, double(m(j, i)));
            SIM_CHECK(near(got, want, rel<T>(), 1e-18), "%s: distance(%zu,%zu)=%.9g, expected %.9g (n=%zu d=%zu)", who, i, j,
                      got, want, n, d);
        }
    }
}

template <typename T>
void matrix_run() {
    Far               far(2);
    const std::size_t n = far("n_samples", 0, sim_tier() ? 40 : 24, 140, 430, 1100), d = far.huge ? sim::pick("n_features", 1, 3) : far("n_features", 1, 9, 70);
    const unsigned    sh = pick_shape();
    sim::Rng          g  = sim::rng("data");
    std::vector<T>    v(n * d);
    if constexpr (std::is_unsigned<T>::value)  // sums of the differences have to fit the type
        for (auto& x : v) x = T(sizeof(T) == 1 ? g.below(4) : g.below(2) ? g.below(40000000) : g.below(5));
    else if constexpr (sizeof(T) == 2)
        for (auto& x : v) x = T(int(g.below(400)) - 200);
    else if constexpr (std::is_integral<T>::value && sizeof(T) == 8)
        for (auto& x : v) x = T(g.below(uint64_t(1) << 42)) - (T(1) << 41);
    else
        v = make_values<T>(n, d, sh, g);
    const auto        keep = v;
    using It               = typename std::vector<T>::iterator;
    using Matrix           = fd::PairwiseDistanceMatrix<It>;
    sim::set_team(pick_team());
    if (sim::pick("ctor", 0, 1)) {
        Matrix m(v.begin(), v.end(), d);
        check_matrix(m, v, n, d, "parallel");
        sim::set_team(pick_team());
        Matrix m2(std::make_tuple(v.begin(), v.end(), d));
        check_matrix(m2, v, n, d, "parallel(descriptor)");
        SIM_CHECK(matrix_hash(m, n) == matrix_hash(m2, n), "two builds of one matrix differ in some bit");
        sim::note_state(matrix_hash(m, n));
    } else {
        Matrix m(std::make_tuple(v.begin(), v.end(), d));
        check_matrix(m, v, n, d, "parallel(descriptor)");
        // the lazily evaluated matrix answers the same
        fd::PairwiseDistanceMatrixDynamic<It> dyn(v.begin(), v.end(), d);
        check_matrix(dyn, v, n, d, "on demand");
        SIM_CHECK(matrix_hash(m, n) == matrix_hash(dyn, n), "the stored and the on-demand matrix differ");
        sim::note_state(matrix_hash(m, n));
    }
    SIM_CHECK(v == keep, "building the matrix changed the dataset");
    if (n >= 3) sim::nontrivial();
}

template <typename T>
void transpose_run() {
    // shapes around the block size matter
    std::size_t n, d;
    switch (sim::pick("huge", 0, 159) == 159 ? 4 + sim::pick("long", 0, 2) : sim::pick("dims", 0, 3)) {
        case 5: n = sim::pick("n_samples", 1025, 70000), d = sim::pick("n_features", 1, 4); break;
        case 6: n = sim::pick("n_samples", 1, 4), d = sim::pick("n_features", 1025, 70000); break;
        case 4: n = sim::pick("n_samples", 1, 400), d = sim::pick("n_features", 1, 400); break;
        case 0: n = sim::pick("n_samples", 0, 12), d = sim::pick("n_features", 1, 12); break;
        case 1: n = sim::pick("n_samples", 60, 68), d = sim::pick("n_features", 1, 6); break;
        case 2: n = sim::pick("n_samples", 1, 6), d = sim::pick("n_features", 60, 68); break;
        default: n = sim::pick("n_samples", 1, 140), d = sim::pick("n_features", 1, 140); break;
    }
    std::vector<T> v(n * d);
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = static_cast<T>(i + 1);
    const auto keep = v;
    sim::set_team(pick_team());
    const auto [t, rows, cols] = ffcl::common::math::linear_algebra::transpose(v.begin(), v.end(), d);
    SIM_CHECK(rows == d && cols == n, "transposing %zux%zu reports shape %zux%zu", n, d, std::size_t(rows),
              std::size_t(cols));
    SIM_CHECK(t.size() == n * d, "transposing %zux%zu returns %zu values", n, d, t.size());
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < d; ++j)
            SIM_CHECK(t[j * n + i] == v[i * d + j], "transpose of %zux%zu: element (%zu,%zu) is %g, expected %g", n, d, j,
                      i, double(t[j * n + i]), double(v[i * d + j]));
    sim::set_team(pick_team());
    if (n) {
        auto       tt              = t;
        const auto [b, rows2, cols2] = ffcl::common::math::linear_algebra::transpose(tt.begin(), tt.end(), n);
        SIM_CHECK(rows2 == n && cols2 == d && b == v, "transposing twice does not return the original %zux%zu matrix", n,
                  d);
    }
    SIM_CHECK(v == keep, "transposing changed the input");
    sim::note_state(n * 1000 + d);
    if (n > 1 && d > 1) sim::nontrivial();
}
}  // namespace

SIM_SCENARIO(P01, matrix_float, 5) { matrix_run<float>(); }
SIM_SCENARIO(P01, matrix_double, 2) { matrix_run<double>(); }
SIM_SCENARIO(P01, matrix_int, 2) { matrix_run<int>(); }
SIM_SCENARIO(P01, matrix_integers, 1) {
    switch (sim::pick("type", 0, 3)) {
        case 0: return matrix_run<unsigned>();
        case 1: return matrix_run<long long>();
        case 2: return matrix_run<short>();
        default: return matrix_run<unsigned char>();
    }
}

// several caller threads build matrices of their own and read one shared matrix
SIM_SCENARIO(P01, matrix_shared_readers, 3) {
    Far               far(2);
    const std::size_t n = far("n_samples", 2, 14, 70), d = far("n_features", 1, 5, 40);
    Data              a = make_data("data", n, d, pick_shape());
    using Matrix        = fd::PairwiseDistanceMatrix<std::vector<float>::iterator>;
    sim::set_team(unsigned(sim::pick("team", 1, 4)));
    const Matrix                       shared(a.v.begin(), a.v.end(), d);
    const unsigned                     k = unsigned(sim::pick("callers", 2, 4));
    std::vector<std::function<void()>> jobs;
    for (unsigned c = 0; c < k; ++c)
        jobs.push_back([&, c] {
            if (c & 1) {
                Matrix mine(a.v.begin(), a.v.end(), d);
                check_matrix(mine, a.v, n, d, "own matrix");
            }
            check_matrix(shared, a.v, n, d, "shared matrix");
        });
    sim::concurrently(jobs, 17);
    sim::note_state(matrix_hash(shared, n));
    sim::nontrivial();
}

SIM_SCENARIO(P02, transpose_float, 3) { transpose_run<float>(); }
SIM_SCENARIO(P02, transpose_double, 1) { transpose_run<double>(); }
SIM_SCENARIO(P02, transpose_int, 1) { transpose_run<int>(); }
SIM_SCENARIO(P02, transpose_byte, 2) { transpose_run<unsigned char>(); }
