// P17: saving an index or a hierarchy to a file, with a disk that fails.
#include "tree.hpp"

#include "ffcl/search/ClosestPairOfSamples.hpp"

#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/search/Search.hpp"

#include <fcntl.h>
#include <map>
#include <cstdio>
#include <memory>
#include <unistd.h>

namespace {
using namespace scn;

// ---------------------------------------------------------------- a strict reader for the documents
struct Json {
    enum Kind { NUL, NUM, STR, ARR, OBJ, BOOL } kind = NUL;
    double                                    num = 0;
    std::string                               str;
    std::vector<Json>                         arr;
    std::vector<std::pair<std::string, Json>> obj;
    const Json* get(const char* k) const {
        for (const auto& p : obj)
            if (p.first == k) return &p.second;
        return nullptr;
    }
};
struct Reader {
    const std::string& s;
    std::size_t        i  = 0;
    bool               ok = true;
    explicit Reader(const std::string& t) : s(t) {}
    void ws() {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) ++i;
    }
    bool eat(char c) {
        ws();
        if (i < s.size() && s[i] == c) return ++i, true;
        return false;
    }
    std::string string() {
        std::string r;
        if (!eat('"')) return ok = false, r;
        while (i < s.size() && s[i] != '"') r += s[i++];
        if (i >= s.size()) ok = false;
        ++i;
        return r;
    }
    Json value() {
        Json v;
        ws();
        if (!ok || i >= s.size()) return ok = false, v;
        if (s[i] == '{') {
            v.kind = Json::OBJ;
            ++i;
            if (eat('}')) return v;
            do {
                auto k = string();
                if (!eat(':')) ok = false;
                if (!ok) return v;
                v.obj.emplace_back(k, value());
            } while (ok && eat(','));
            if (!eat('}')) ok = false;
        } else if (s[i] == '[') {
            v.kind = Json::ARR;
            ++i;
            if (eat(']')) return v;
            do v.arr.push_back(value());
            while (ok && eat(','));
            if (!eat(']')) ok = false;
        } else if (s[i] == '"') {
            v.kind = Json::STR;
            v.str  = string();
        } else if (!s.compare(i, 4, "null")) {
            i += 4;
        } else if (!s.compare(i, 4, "true")) {
            i += 4, v.kind = Json::BOOL, v.num = 1;
        } else if (!s.compare(i, 5, "false")) {
            i += 5, v.kind = Json::BOOL;
        } else {
            char* e = nullptr;
            v.kind  = Json::NUM;
            v.num   = strtod(s.c_str() + i, &e);
            if (e == s.c_str() + i) ok = false;
            i = std::size_t(e - s.c_str());
        }
        return v;
    }
    Json document() {
        Json v = value();
        ws();
        if (i != s.size()) ok = false;
        return v;
    }
};
// the harness reads and removes files below the simulated disk
bool slurp(const std::string& path, std::string& out) {
    out.clear();
    const int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0) return false;
    char    b[4096];
    ssize_t r;
    while ((r = read(fd, b, sizeof b)) > 0) out.append(b, std::size_t(r));
    close(fd);
    return true;
}
bool num(const Json* j, double x) {
    return j && j->kind == Json::NUM && std::fabs(j->num - x) <= 1e-13 * std::fabs(x);
}

// ---------------------------------------------------------------- does the document describe the structure
template <typename T, typename Node>
const char* node_differs(const Json* j, const Node& p, const std::vector<T>& data, std::size_t d) {
    if (!j || j->kind != Json::OBJ) return "a node is missing";
    if (!num(j->get("axis"), double(p->cut_axis_feature_index_))) return "the axis of a node is wrong";
    const Json* pts = j->get("points");
    if (!pts || pts->kind != Json::ARR) return "the samples of a node are missing";
    const std::size_t m = std::size_t(std::distance(p->indices_range_.first, p->indices_range_.second));
    if (pts->arr.size() != m) return "a node has another number of samples";
    std::size_t r = 0;
    for (auto it = p->indices_range_.first; it != p->indices_range_.second; ++it, ++r) {
        if (pts->arr[r].arr.size() != d) return "a sample has another number of features";
        for (std::size_t f = 0; f < d; ++f)
            if (!num(&pts->arr[r].arr[f], double(data[*it * d + f]))) return "a feature value is wrong";
    }
    if (p->is_leaf()) return j->get("left") || j->get("right") ? "a leaf has children" : nullptr;
    if (auto e = node_differs<T>(j->get("left"), p->left_, data, d)) return e;
    return node_differs<T>(j->get("right"), p->right_, data, d);
}
template <typename T>
const char* tree_differs(const std::string& text, const typename Space<T>::Tree& t, const std::vector<T>& data, std::size_t d, const TreeSpec& sp) {
    Reader     r(text);
    const Json j = r.document();
    if (!r.ok || j.kind != Json::OBJ) return "the file is not a complete document";
    if (!num(j.get("n_features"), double(d))) return "the number of features is wrong";
    const Json* o = j.get("options");
    if (!o) return "the options are missing";
    if (sp.policy != 3)
        if (!num(o->get("bucket_size"), double(sp.bucket)) || !num(o->get("max_depth"), double(sp.max_depth))) return "the options are wrong";
    const Json* bb = j.get("bounding_box");
    if (!bb || bb->arr.size() != d) return "the bounding box is wrong";
    std::vector<std::size_t> all;
    std::function<void(const typename Space<T>::Tree::NodePtr&)> collect = [&](const typename Space<T>::Tree::NodePtr& p) {
        for (auto it = p->indices_range_.first; it != p->indices_range_.second; ++it) all.push_back(*it);
        if (!p->is_leaf()) collect(p->left_), collect(p->right_);
    };
    collect(t.root());
    if (!num(j.get("n_samples"), double(all.size()))) return "the number of samples is wrong";
    for (std::size_t f = 0; f < d; ++f) {
        double lo = INFINITY, hi = -INFINITY;
        for (auto i : all) lo = std::min(lo, double(data[i * d + f])), hi = std::max(hi, double(data[i * d + f]));
        if (bb->arr[f].arr.size() != 2 || !num(&bb->arr[f].arr[0], lo) || !num(&bb->arr[f].arr[1], hi)) return "the bounding box is wrong";
    }
    return node_differs<T>(j.get("root"), t.root(), data, d);
}
template <typename Node>
const char* hier_node_differs(const Json* j, const Node& p) {
    if (!j || j->kind != Json::OBJ) return "a node is missing";
    if (!num(j->get("representative"), double(p->representative_))) return "a representative is wrong";
    if (!num(j->get("level"), double(p->level_))) return "a height is wrong";
    if (!num(j->get("cluster_size"), double(p->cluster_size_))) return "a cluster size is wrong";
    if (p->is_leaf()) return j->get("left") || j->get("right") ? "a leaf has children" : nullptr;
    if (auto e = hier_node_differs(j->get("left"), p->left_)) return e;
    return hier_node_differs(j->get("right"), p->right_);
}
template <typename Slct>
const char* hier_differs(const std::string& text, const Slct& t) {
    Reader     r(text);
    const Json j = r.document();
    if (!r.ok || j.kind != Json::OBJ) return "the file is not a complete document";
    return hier_node_differs(j.get("root"), t.root());
}
template <typename Slct>
uint64_t hier_hash(const Slct& t) {
    uint64_t h = 3;
    using P    = decltype(t.root());
    std::function<void(const P&)> go = [&](const P& p) {
        h = sim::mix(sim::mix(sim::mix(h, p->representative_), fbits(double(p->level_))), p->cluster_size_);
        if (!p->is_leaf()) go(p->left_), go(p->right_);
    };
    go(t.root());
    return h;
}
template <typename Tree>
uint64_t tree_hash(const Tree& t) {
    uint64_t                                            h  = 5;
    std::function<void(const typename Tree::NodePtr&)> go = [&](const typename Tree::NodePtr& p) {
        for (auto it = p->indices_range_.first; it != p->indices_range_.second; ++it) h = sim::mix(h, *it);
        h = sim::mix(h, uint64_t(p->cut_axis_feature_index_));
        if (!p->is_leaf()) go(p->left_), go(p->right_);
    };
    go(t.root());
    return h;
}

// ---------------------------------------------------------------- faults
const char* const fault_name[] = {"none", "device full", "write error", "short writes", "interrupted writes", "open error", "close error", "lost bytes at close", "short and interrupted", "short writes, then device full"};
enum { NONE, FULL, EIO_, SHORT, EINTR_, OPEN, CLOSE, LOST, SHORT_EINTR, SHORT_FULL, NFAULTS };
sim::DiskPlan plan_of(unsigned kind, std::size_t size) {
    sim::DiskPlan     p;
    const std::size_t at = sim::pick("fault_at", 0, 1u << 20) % (size ? size : 1);
    switch (kind) {
        case FULL: p.enospc_at = at; break;
        case EIO_: p.eio_at = at; break;
        case SHORT: p.short_mod = unsigned(1 + at % 97); break;
        case EINTR_: p.eintr_every = unsigned(2 + at % 3); break;
        case OPEN: p.open_fails = true; break;
        case CLOSE: p.close_fails = true; break;
        case LOST:
            p.close_fails = true;
            p.lost_from   = at;
            break;
        case SHORT_EINTR:
            p.short_mod   = unsigned(1 + at % 97);
            p.eintr_every = unsigned(2 + at % 3);
            break;
        case SHORT_FULL:
            p.short_mod = unsigned(1 + at % 97);
            p.enospc_at = at;
            break;
        default: break;
    }
    return p;
}
struct Saved {
    bool        threw = false;
    uint64_t    faults = 0;
    std::string text;
    bool        exists = false;
};
template <typename S>
Saved save(const S& s, const std::string& path) {
    Saved          r;
    const uint64_t f0 = sim::disk_stats().faults;
    try {
        r.threw = !save_to(s, path);
    } catch (const std::exception&) {
        r.threw = true;
    }
    r.faults = sim::disk_stats().faults - f0;
    return r;
}
template <typename T>
struct Thing {  // an index or a hierarchy
    using Slct = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, T>;
    using Bor  = ffcl::BoruvkasAlgorithm<typename Space<T>::Tree>;
    std::vector<T>                           data;
    std::size_t                              n = 0, d = 0;
    TreeSpec                                 spec;
    std::vector<std::size_t>                 idx;
    std::unique_ptr<typename Space<T>::Tree> tree;
    std::unique_ptr<Slct>                    slct;

    void draw(sim::Rng& g, bool hierarchy, unsigned moved, std::size_t cap) {
        n    = 2 + g.below(cap);
        d    = 1 + g.below(g.below(12) ? 3 : 16);
        data = make_values<T>(n, d, unsigned(g.below(LAST_SHAPE + 1)), g);
        spec = draw_spec(g, n, d);
        build(g, hierarchy, moved);
    }
    // the same samples in another order, the features mirrored, or the same object but for a digit
    void like(sim::Rng& g, const Thing& o, bool hierarchy) {
        n = o.n, d = o.d, spec = o.spec, data = o.data;
        switch (g.below(3)) {
            case 0: std::reverse(data.begin(), data.end()); break;
            case 1: std::rotate(data.begin(), data.begin() + std::ptrdiff_t(d * (1 + g.below(n - 1))), data.end()); break;
            default: data[g.below(data.size())] += T(1); break;
        }
        build(g, hierarchy, unsigned(g.below(3)));
    }
    void build(sim::Rng& g, bool hierarchy, unsigned moved) {
        // a hierarchy needs every sample, an index may cover some
        idx = hierarchy ? all_indices(n) : some_indices(n, 1 + g.below(n), g);
        auto t = make_index<T>(idx, data, d, spec);
        if (!hierarchy) {
            if (moved == 1)
                tree.reset(new typename Space<T>::Tree(std::move(t)));
            else if (moved == 2) {
                typename Space<T>::Tree c(t);
                tree.reset(new typename Space<T>::Tree(std::move(c)));
            } else
                tree.reset(new typename Space<T>::Tree(t));
            return;
        }
        if constexpr (std::is_floating_point<T>::value) {
        auto edges = Bor(typename Bor::Options().k_nearest_neighbors(1 + g.below(3))).make_tree(t);
        if (moved == 1) {
            Slct a(std::move(edges));
            slct.reset(new Slct(std::move(a)));
        } else
            slct.reset(new Slct(edges));
        }
    }
    Saved       write(const std::string& p) const { return tree ? save(*tree, p) : save(*slct, p); }
    const char* differs(const std::string& text) const { return tree ? tree_differs<T>(text, *tree, data, d, spec) : hier_differs(text, *slct); }
    uint64_t    hash() const { return tree ? tree_hash(*tree) : hier_hash(*slct); }
    const char* what() const { return tree ? "index" : "hierarchy"; }
};

template <typename T>
void save_with_faults() {
    sim::Rng    g         = sim::rng("thing");
    const bool  hierarchy = std::is_floating_point<T>::value && sim::pick("hierarchy", 0, 1) == 1;
    Thing<T>    x;
    const bool  huge = sim::pick("huge", 0, 159) == 159;
    x.draw(g, hierarchy, unsigned(sim::pick("moved", 0, 2)), huge ? (!hierarchy && sim::pick("giant", 0, 4) == 4 ? 2000 : 400) : sim::pick("big", 0, 3) == 0 ? 120 : 12);
    const auto        data0 = x.data;
    const uint64_t    h0    = x.hash();
    const std::string path  = std::string(sim::scratch()) + "saved.json";
    std::string       text;
    // something longer may be in the way
    if (sim::pick("stale", 0, 2) == 0) {
        FILE* f = std::fopen(path.c_str(), "w");
        for (int i = 0; f && i < 3000; ++i) std::fputs("{\"stale\":[1,2,3]}\n", f);
        if (f) std::fclose(f);
    }
    // an undisturbed disk: the document is complete
    Saved r = x.write(path);
    SIM_CHECK(!r.threw, "saving the %s fails although the disk is fine", x.what());
    SIM_CHECK(slurp(path, text), "the saved %s does not exist", x.what());
    const char* e = x.differs(text);
    SIM_CHECK(!e, "saved %s: %s", x.what(), e);
    SIM_CHECK(x.hash() == h0 && x.data == data0, "saving the %s changed it", x.what());
    // another object of the same kind takes the place of the first: the same numbers, so usually of the same length
    if (sim::pick("replaced", 0, 2) == 0) {
        Thing<T> y;
        y.like(g, x, hierarchy);
        r = y.write(path);
        SIM_CHECK(!r.threw, "saving another %s to the same file fails although the disk is fine", x.what());
        SIM_CHECK(slurp(path, text), "the second saved %s does not exist", x.what());
        e = y.differs(text);
        SIM_CHECK(!e, "second %s saved to the same file: %s", x.what(), e);
        r = x.write(path);
        SIM_CHECK(!r.threw && slurp(path, text), "the %s cannot be saved again", x.what());
        e = x.differs(text);
        SIM_CHECK(!e, "%s saved to the same file again: %s", x.what(), e);
    }
    const std::size_t size = text.size();
    // a failing disk: complete or reported
    const bool     anew = sim::pick("anew", 0, 1) == 1;  // onto the previous file or a new one
    const unsigned kind = unsigned(sim::pick("fault", 0, NFAULTS - 1));
    const auto     p2   = anew ? std::string(sim::scratch()) + "other.json" : path;
    sim::disk_plan(plan_of(kind, size));
    r = x.write(p2);
    sim::disk_clear();
    if (r.threw) {
        SIM_CHECK(r.faults > 0, "saving the %s fails although no fault happened (%s)", x.what(), fault_name[kind]);
    } else {
        SIM_CHECK(slurp(p2, text), "saving the %s reported success, the file does not exist (%s)", x.what(), fault_name[kind]);
        e = x.differs(text);
        SIM_CHECK(!e, "saving the %s reported success with a failing disk (%s): %s", x.what(), fault_name[kind], e);
    }
    if (r.faults) sim::nontrivial();
    SIM_CHECK(x.hash() == h0 && x.data == data0, "a failed save changed the %s", x.what());
    // the disk is fine again
    r = x.write(p2);
    SIM_CHECK(!r.threw && slurp(p2, text) && !x.differs(text), "after a failed save the %s cannot be saved", x.what());
    // a folder that does not exist
    if (sim::pick("nowhere", 0, 3) == 0) {
        r = x.write(std::string(sim::scratch()) + "missing/saved.json");
        SIM_CHECK(r.threw, "saving the %s into a folder that does not exist reported success", x.what());
        sim::count_fault("missing_folder");
    }
    sim::note_state(sim::mix(h0, kind * 2 + anew));
}

template <typename T>
void save_in_threads() {
    sim::Rng          g  = sim::rng("things");
    const std::size_t nt = sim::pick("threads", 2, 4);
    const bool        one = sim::pick("shared", 0, 1) == 1;  // all save the same object
    std::vector<Thing<T>> things(one ? 1 : nt);
    for (auto& t : things) t.draw(g, std::is_floating_point<T>::value && g.below(2), unsigned(g.below(3)), 8);
    const unsigned     kind = unsigned(sim::pick("fault", 0, NFAULTS - 1));
    std::vector<Saved> res(nt);
    std::vector<std::string> paths;
    for (std::size_t i = 0; i < nt; ++i) paths.push_back(std::string(sim::scratch()) + "t" + std::to_string(i) + ".json");
    std::vector<std::function<void()>> jobs;
    for (std::size_t i = 0; i < nt; ++i) jobs.push_back([&, i] { res[i] = things[one ? 0 : i].write(paths[i]); });
    sim::disk_plan(plan_of(kind, 600));
    const uint64_t f0 = sim::disk_stats().faults;
    sim::concurrently(jobs, 4);
    const uint64_t faults = sim::disk_stats().faults - f0;
    sim::disk_clear();
    for (std::size_t i = 0; i < nt; ++i) {
        const auto& x = things[one ? 0 : i];
        if (res[i].threw) {
            SIM_CHECK(faults > 0, "thread %zu fails to save the %s although no fault happened", i, x.what());
            continue;
        }
        std::string text;
        SIM_CHECK(slurp(paths[i], text), "thread %zu reported success, the file does not exist (%s)", i, fault_name[kind]);
        const char* e = x.differs(text);
        SIM_CHECK(!e, "thread %zu saving the %s reported success (%s): %s", i, x.what(), fault_name[kind], e);
        sim::note_state(hash_values(text));
    }
    sim::nontrivial();
}
}  // namespace

SIM_SCENARIO(P17, faults_f, 3) { save_with_faults<float>(); }
SIM_SCENARIO(P17, faults_d, 2) { save_with_faults<double>(); }
SIM_SCENARIO(P17, faults_i, 1) { save_with_faults<int>(); }
SIM_SCENARIO(P17, threads, 2) { sim::pick("integers", 0, 5) == 5 ? save_in_threads<int>() : save_in_threads<float>(); }
