// P16 allocation failures, P19 independent jobs in different threads, P20 memory.
#include "ops.hpp"

namespace {
using namespace scn;

struct Dims {
    std::size_t n, d;
    unsigned    shape;
    sim::Rng    g;
};
Dims draw_dims(std::size_t cap) {
    Far               far(2);
    const std::size_t n = far("n", 3, cap, 70, 262), d = far("d", 1, 3, 36);
    return {n, d, unsigned(sim::pick("shape", 0, scn::LAST_SHAPE)), sim::rng("world")};
}
// in a fresh thread: the fitted models of two worlds of the same dimensions are the same
template <typename T>
std::unique_ptr<World<T>> make_world(Dims m) {
    auto w = std::make_unique<World<T>>();
    sim::fresh(77, [&] { w->draw(m.g, m.n, m.d, m.shape); });
    return w;
}
template <typename T>
OpSpec pick_op(const World<T>& w) {
    sim::Rng g = sim::rng("op");
    OpSpec   s = draw_op(g, w.n, w.d);
    s.op       = unsigned(sim::pick("op", 0, NOPS - 1));
    return s;
}

// ---------------------------------------------------------------------------------------------------------------- P16
template <typename T>
void out_of_memory() {
    const Dims     dims  = draw_dims(12);
    auto           w     = make_world<T>(dims);
    const auto     data0 = w->data;
    const auto     index0 = w->index;
    const OpSpec   s     = pick_op(*w);
    const char*    what  = op_name(s.op);
    Out            good;
    uint64_t       total = 0, before = 0, after = 0;
    // alone and undisturbed: the right result, and how often memory is requested
    sim::fresh(1, [&] {
        sim::heap_count_begin();
        good  = run_op(*w, s);
        total = sim::heap_count_end();
    });
    if (total == 0) return;
    const bool     sticky = sim::pick("persistent", 0, 1) == 1;
    const uint64_t at     = 1 + sim::pick("at", 0, 1u << 20) % total;
    bool           failed = false, done = false;
    std::string    other;
    Out            got;
    sim::fresh(1, [&] {
        before = sim::heap_stats().live_blocks;
        sim::heap_fail(at, sticky);
        try {
            Out r = run_op(*w, s);
            sim::heap_heal();
            done = true;
            got  = r;
        } catch (const std::bad_alloc&) {
            failed = true;
        } catch (const std::exception& e) {
            sim::heap_heal();
            other = e.what();
        }
        sim::heap_heal();
        if (!done) after = sim::heap_stats().live_blocks;
    });
    // streams report a failed allocation as a failed write
    if (s.op == OP_SAVE_TREE || s.op == OP_SAVE_SLCT) failed = failed || !other.empty();
    SIM_CHECK(failed || done, "%s: out of memory surfaces as another error (%s)", what, other.c_str());
    if (done) {
        SIM_CHECK(got == good, "%s: a failed allocation passed unnoticed and changed the result", what);
    } else {
        SIM_CHECK(after == before, "%s: after running out of memory %lld blocks are still allocated", what, (long long)(after - before));
        sim::nontrivial();
    }
    SIM_CHECK(w->data == data0 && w->index == index0, "%s: running out of memory changed the caller's data", what);
    // memory is back: everything that existed before still works
    Out again;
    sim::fresh(1, [&] { again = run_op(*w, s); });
    SIM_CHECK(again == good, "%s: after running out of memory the operation gives another result", what);
    OpSpec s2 = s;
    s2.op     = unsigned(sim::pick("next_op", 0, NOPS - 1));
    Out a, b;
    auto w2 = make_world<T>(dims);
    sim::fresh(2, [&] { a = run_op(*w, s2); });
    sim::fresh(2, [&] { b = run_op(*w2, s2); });
    SIM_CHECK(a == b, "%s: after %s ran out of memory the result differs", op_name(s2.op), what);
    sim::note_state(sim::mix(s.op * 4096 + at, sticky));
}

// A fitted model is fitted again while memory runs out: it answers as before or as after, and can be fitted again.
template <typename M, typename Fit, typename Ask>
void refit(const std::function<std::unique_ptr<M>()>& make, Fit fit, Ask ask, const char* what) {
    Out      before, after, good;
    uint64_t total = 0;
    sim::fresh(1, [&] {
        auto m = make();
        before = ask(*m);
        sim::heap_count_begin();
        good  = fit(*m);
        total = sim::heap_count_end();
        after = ask(*m);
    });
    const bool     sticky = sim::pick("persistent", 0, 1) == 1;
    const uint64_t late   = sim::pick("late", 0, 3) == 0 ? std::min<uint64_t>(total, 6) : total;  // often at the very end
    const uint64_t at     = total - sim::pick("at", 0, 1u << 20) % late;
    sim::fresh(1, [&] {
        auto           m    = make();
        const uint64_t live = sim::heap_stats().live_blocks;
        bool           failed = false;
        uint64_t       now    = 0;
        Out            got;
        sim::heap_fail(at, sticky);
        try {
            Out r = fit(*m);
            sim::heap_heal();
            got = r;
        } catch (const std::bad_alloc&) {
            failed = true;
            now    = sim::heap_stats().live_blocks;
        }
        sim::heap_heal();
        if (!failed) {
            SIM_CHECK(got == good, "%s: a failed allocation passed unnoticed and changed the result", what);
            return;
        }
        SIM_CHECK(now == live, "%s: after running out of memory %lld blocks are still allocated", what, (long long)(now - live));
        const Out state = ask(*m);
        SIM_CHECK(state == before || state == after, "%s: running out of memory left a model that is neither the old nor the new one", what);
        const Out again = fit(*m);
        if (state == before) SIM_CHECK(again == good, "%s: fitting again after running out of memory gives another result", what);
        sim::nontrivial();
    });
    sim::note_state(sim::mix(total, at));
}
template <typename T>
void refit_without_memory() {
    sim::Rng          g = sim::rng("refit");
    const std::size_t n = sim::pick("n", 3, 14), d = sim::pick("d", 1, 3), k = sim::pick("k", 2, std::min<std::size_t>(n - 1, 4));
    std::vector<T>    v = make_values<T>(n, d, pick_shape(), g), u = make_values<T>(n, d, pick_shape(), g);
    const std::size_t iter = sim::pick("iterations", 1, 4);
    const unsigned    how  = unsigned(sim::pick("model", 0, 5));
    using KM               = ffcl::KMeans<T>;
    using KD               = ffcl::KMedoids<T, true>;
    using Matrix           = ffcl::datastruct::PairwiseDistanceMatrix<typename std::vector<T>::iterator>;
    const Matrix D(u.begin(), u.end(), d);
    const auto   kmeans_state = [&](const KM& m) {
        Out o;
        put_all(o, m.predict(v.begin(), v.end(), d));
        put_all(o, m.forward(v.begin(), v.end(), d));
        return o;
    };
    const auto kmedoids_state = [&](const KD& m) {
        Out o;
        put_all(o, m.predict(D));
        put_all(o, m.forward(D));
        return o;
    };
    const auto new_kmeans = [&] {
        auto m = std::make_unique<KM>(k, typename KM::Options().max_iter(iter).n_init(2));
        m->template fit<ffcl::Lloyd>(v.begin(), v.end(), d);
        return m;
    };
    const auto new_kmedoids = [&] {
        auto m = std::make_unique<KD>(k, typename KD::Options().max_iter(1).n_init(1));
        m->template fit<ffcl::FasterPAM>(v.begin(), v.end(), d);
        return m;
    };
    const auto all = [](const auto& r) {
        Out o;
        put_all(o, r);
        return o;
    };
    switch (how) {
        case 0: refit<KM>(new_kmeans, [&](KM& m) { return all(m.template fit<ffcl::Lloyd>(u.begin(), u.end(), d)); }, kmeans_state, "refitting k-means (Lloyd)"); break;
        case 1: refit<KM>(new_kmeans, [&](KM& m) { return all(m.template fit<ffcl::Hamerly>(u.begin(), u.end(), d)); }, kmeans_state, "refitting k-means (Hamerly)"); break;
        case 2: refit<KD>(new_kmedoids, [&](KD& m) { return all(m.template fit<ffcl::FasterPAM>(u.begin(), u.end(), d)); }, kmedoids_state, "refitting k-medoids"); break;
        case 3: refit<KD>(new_kmedoids, [&](KD& m) { return all(m.template fit<ffcl::FasterPAM>(D)); }, kmedoids_state, "refitting k-medoids on a matrix"); break;
        case 4: refit<KM>([&] { return std::make_unique<KM>(k, std::vector<T>(v.begin(), v.begin() + long(k * d)), typename KM::Options().max_iter(iter)); },
                          [&](KM& m) { return all(m.fit(u.begin(), u.end(), d)); }, kmeans_state, "fitting k-means from given centroids"); break;
        default: refit<KD>([&] { return std::make_unique<KD>(k, all_indices(k), typename KD::Options().max_iter(iter)); },
                           [&](KD& m) { return all(m.fit(D)); }, kmedoids_state, "fitting k-medoids from given medoids"); break;
    }
}

// ---------------------------------------------------------------------------------------------------------------- P19
template <typename T>
void mix_of_jobs() {
    auto              w     = make_world<T>(draw_dims(8));
    const auto        data0 = w->data;
    const auto        index0 = w->index;
    sim::Rng          g     = sim::rng("mix");
    const std::size_t nt    = sim::pick("threads", 2, 4), len = sim::pick("length", 1, 3);
    const bool        same = sim::pick("same", 0, 3) == 0;  // all threads do the same thing
    std::vector<std::vector<OpSpec>> plan(nt);
    for (std::size_t t = 0; t < nt; ++t)
        for (std::size_t i = 0; i < len; ++i) {
            OpSpec s = draw_op(g, w->n, w->d);
            if (same && t) s = plan[0][i];
            s.file   = unsigned(t);
            plan[t].push_back(s);
        }
    sim::set_team(unsigned(sim::pick("team", 1, 4)));
    pick_entropy();
    std::vector<std::function<Out()>> jobs;
    for (std::size_t t = 0; t < nt; ++t) jobs.push_back([&, t] {
        Out o;
        for (const auto& s : plan[t]) {
            const Out x = run_op(*w, s);
            o.push_back(s.op);
            o.insert(o.end(), x.begin(), x.end());
        }
        return o;
    });
    at_once_and_alone<Out>(jobs, 9, "results");
    SIM_CHECK(w->data == data0 && w->index == index0, "reading shared objects changed them");
}

// ---------------------------------------------------------------------------------------------------------------- P20
template <typename T>
void memory_life() {
    sim::Rng          g     = sim::rng("life");
    const std::size_t steps = sim::pick("steps", 1, 4);
    unsigned          ops[4] = {};
    for (std::size_t i = 0; i < steps; ++i) ops[i] = unsigned(sim::pick(i == 0 ? "op0" : i == 1 ? "op1" : i == 2 ? "op2" : "op3", 0, NOPS - 1));
    uint64_t          digest[2][4] = {};
    const Dims        dims = draw_dims(10);
    // the same history under different contents of fresh memory, each time from nothing to nothing
    const unsigned stale = unsigned(sim::pick("stale", 1, 255));
    for (unsigned round = 0; round < 2; ++round) {
        sim::Rng gg = g;
        sim::heap_garbage(round == 0 ? 0x00 : stale);
        uint64_t before = 0, after = 0;
        sim::fresh(3, [&] {
            before = sim::heap_stats().live_blocks;
            {
                auto     w = std::make_unique<World<T>>();
                sim::Rng wg = dims.g;
                w->draw(wg, dims.n, dims.d, dims.shape);
                for (std::size_t i = 0; i < steps; ++i) {
                    OpSpec s      = draw_op(gg, w->n, w->d);
                    s.op          = ops[i];
                    const auto lb = sim::heap_stats().live_blocks;
                    {
                        const Out o      = run_op(*w, s);
                        digest[round][i] = hash_values(o);
                    }
                    const auto la = sim::heap_stats().live_blocks;
                    SIM_CHECK(la == lb, "%s leaves %lld blocks allocated", op_name(s.op), (long long)(la - lb));
                }
            }
            after = sim::heap_stats().live_blocks;
        });
        SIM_CHECK(after == before, "%lld blocks are still allocated after everything was destroyed", (long long)(after - before));
    }
    for (std::size_t i = 0; i < steps; ++i) {
        SIM_CHECK(digest[0][i] == digest[1][i], "%s: the result depends on what fresh memory contains", op_name(ops[i]));
        sim::note_state(digest[0][i]);
    }
    sim::nontrivial();
}
}  // namespace

SIM_SCENARIO(P16, out_of_memory, 5) { sim::pick("type", 0, 3) == 0 ? out_of_memory<double>() : out_of_memory<float>(); }
SIM_SCENARIO(P16, refit, 1) { sim::pick("type", 0, 3) == 0 ? refit_without_memory<double>() : refit_without_memory<float>(); }
SIM_SCENARIO(P19, mix, 1) { sim::pick("type", 0, 3) == 0 ? mix_of_jobs<double>() : mix_of_jobs<float>(); }
SIM_SCENARIO(P20, life, 1) { sim::pick("type", 0, 3) == 0 ? memory_life<double>() : memory_life<float>(); }
