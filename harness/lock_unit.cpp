// The lockstep units: see lock.hpp.
#include <algorithm>
#include <cstring>

#include "lock.hpp"

namespace pbt {
std::vector<LockFactory>& lock_factories() {
    static std::vector<LockFactory> f;
    return f;
}
namespace {

char const* const query_name[] = {"content", "reverse content", "size, front and back", "sum", "prefix sums", "sum_lower_bound", "extrema", "extrema of a range", "element", "index", "key lookup", "iterator walk"};

struct Lock {
    Src& s;
    Ctx& ctx;
    bool map;
    std::vector<std::unique_ptr<LockTree>> trees;
    Model m;                       // only used to generate valid operations and as one more party
    std::vector<Model> versions;
    int64_t key_range = 10;
    int64_t kmul = 1, kadd = 0, vmul = 1;       // keys and values are mapped

    bool full(size_t v) {
        for (auto& t : trees) if (t->full(v)) return true;
        return false;
    }
    static int64_t i32(int64_t x) { return static_cast<int32_t>(x); }

    // what the model answers, in the format of LockImpl::query (extrema of configurations without a mixin are INT64_MIN)
    Obs expected(Model const& x, LockQuery q, size_t a, size_t b, int64_t k) const {
        std::vector<int64_t> o;
        size_t n = x.size();
        auto put = [&](Rep const& r) { if (map) o.push_back(r.k); o.push_back(r.v); };
        auto pre = [&](size_t e) { int64_t t = 0; for (size_t i = 0; i < e; ++i) t += x[i].v; return t; };
        auto ext = [&](size_t l, size_t h) {
            int64_t lo = INT64_MAX, hi = INT64_MIN;
            for (size_t i = l; i < h; ++i) { lo = std::min(lo, x[i].v); hi = std::max(hi, x[i].v); }
            o = {lo, lo, hi, hi};
        };
        switch (q) {
            case LQ_CONTENT: for (auto& r : x) put(r); return o;
            case LQ_REVERSE: for (size_t i = n; i-- > 0;) put(x[i]); return o;
            case LQ_SIZE: o = {static_cast<int64_t>(n), n == 0}; if (n) { put(x.front()); put(x.back()); } return o;
            case LQ_SUM: o.push_back(pre(n)); return o;
            case LQ_PREFIX: o.push_back(pre(a)); if (a < n) o.push_back(pre(a + 1)); return o;
            case LQ_SUM_LB: { size_t i = 0; int64_t t = 0; while (i < n && (t += x[i].v) < k) ++i; o.push_back(static_cast<int64_t>(i)); return o; }
            case LQ_EXTREMA: if (!n) return std::nullopt; ext(0, n); return o;
            case LQ_RANGE: if (a >= b) return std::nullopt; ext(a, b); return o;
            case LQ_ELEMENT: if (a >= n) return std::nullopt; put(x[a]); o.push_back(1); return o;
            case LQ_INDEX: o.push_back(static_cast<int64_t>(a)); if (a < n) put(x[a]); o.push_back(static_cast<int64_t>(b) - static_cast<int64_t>(a)); return o;
            case LQ_KEY: {
                size_t l = lower(x, k);
                bool f = l < n && x[l].k == k;
                o.push_back(f);
                if (f) put(x[l]);
                o.push_back(f);
                o.push_back(static_cast<int64_t>(l));
                o.push_back(static_cast<int64_t>(l + f));
                return o;
            }
            case LQ_WALK: if (a >= n) return std::nullopt; o = {1, b < n}; if (b < n) put(x[b]); return o;
            default: return std::nullopt;
        }
    }
    static size_t lower(Model const& x, int64_t k) {
        return static_cast<size_t>(std::lower_bound(x.begin(), x.end(), k, [](Rep const& r, int64_t k) { return r.k < k; }) - x.begin());
    }
    void compare(size_t v, LockQuery q, size_t a, size_t b, int64_t k, unsigned how) {
        Model const& x = v < versions.size() ? versions[v] : m;
        Obs want = expected(x, q, a, b, k);
        char const* first = nullptr;
        size_t answered = 0;
        for (auto& t : trees) {
            Obs got = t->observe(v, q, a, b, k, how);
            if (!got) continue;
            ++answered;
            PBT_CHECK(ctx, want.has_value(), "harness: unexpected answer to %s", query_name[q]);
            bool same = got->size() == want->size();
            size_t at = 0;
            for (; same && at < got->size(); ++at)
                if ((*got)[at] != (*want)[at] && !((q == LQ_EXTREMA || q == LQ_RANGE) && (*got)[at] == INT64_MIN)) { same = false; break; }
            if (!same) {
                ctx.fail("%s of %s (arguments %zu, %zu, %lld): configuration '%s' answers %lld at item %zu (%zu items), %s%s%s answers %lld (%zu items)", query_name[q],
                         v < versions.size() ? "a version" : "the transient tree", a, b, (long long)k, t->name(), at < got->size() ? (long long)(*got)[at] : -1LL, at, got->size(),
                         first ? "configuration '" : "the model", first ? first : "", first ? "'" : "", at < want->size() ? (long long)(*want)[at] : -1LL, want->size());
            }
            first = t->name();
        }
        if (answered > 1) ctx.label("observations answered by several configurations");
    }
    void observe_all(size_t v) {
        Model const& x = v < versions.size() ? versions[v] : m;
        unsigned how = s.draw(128);
        compare(v, LQ_CONTENT, 0, 0, 0, how);
        compare(v, LQ_SIZE, 0, 0, 0, how);
        for (int i = 0; i < 3; ++i) probe(v, x);
    }
    void probe(size_t v, Model const& x) {
        auto q = static_cast<LockQuery>(s.draw(LQ_COUNT));
        size_t a = s.draw(x.size() + 1), b = s.draw(x.size() + 1);
        if (q == LQ_RANGE && a > b) std::swap(a, b);
        int64_t k = 0;
        if (q == LQ_KEY) k = kadd + kmul * (static_cast<int64_t>(s.draw(static_cast<uint64_t>(key_range) + 2)) - 1);
        else if (q == LQ_SUM_LB) {
            int64_t t = 0;
            for (auto& r : x) t += r.v;
            k = static_cast<int64_t>(s.draw(static_cast<uint64_t>(t) + 3));
        }
        compare(v, q, a, b, k, s.draw(128));
    }
    bool gen(Model const& x, LockEdit& e, size_t& pos, Rep& r, unsigned grow) {
        size_t n = x.size();
        e = n == 0 || s.draw(8) < grow ? L_INSERT : s.draw(2) ? L_ERASE : L_ASSIGN;
        r.v = vmul * static_cast<int64_t>(s.draw(1000));
        r.k = kadd + kmul * static_cast<int64_t>(s.draw(static_cast<uint64_t>(key_range)));
        if (!map) r.k = 0;
        if (e == L_INSERT) {
            pos = map ? lower(x, r.k) : s.draw(4) == 3 ? n : s.draw(n + 1);
            return !(map && pos < n && x[pos].k == r.k);
        }
        pos = s.draw(n);
        r.k = x[pos].k;
        return true;
    }
    static void apply(Model& x, LockEdit e, size_t pos, Rep r) {
        auto it = x.begin() + static_cast<long>(pos);
        if (e == L_INSERT) x.insert(it, r);
        else if (e == L_ERASE) x.erase(it);
        else *it = r;
    }
    void run() {
        std::vector<LockFactory const*> all;
        for (auto& f : lock_factories()) if (!strcmp(f.family, map ? "map" : "vec")) all.push_back(&f);
        for (auto* f : all) trees.push_back(f->make());
        static constexpr int64_t ranges[] = {10, 60, 400, 100000};
        static constexpr size_t caps[] = {10, 40, 150, 600};
        key_range = ranges[s.draw(4)];
        // keys close together or over all of int32; sums of all values stay within int32
        switch (s.draw(4)) {
            case 2: kmul = 4000000000LL / (key_range + 4); kadd = -kmul * (key_range / 2); break;
            case 3: kadd = 2147000000 - key_range; break;
            case 1: kadd = -2147000000; break;
            default: break;
        }
        vmul = s.draw(2) ? 3000 : 1;
        size_t cap = caps[s.draw(4)];
        unsigned grow = 3 + s.draw(5);
        ctx.log("%zu %s configurations in lockstep, at most %zu elements, keys %lld + %lld * 0..%lld, values %lld * 0..999", trees.size(), map ? "map" : "vector", cap, (long long)kadd, (long long)kmul, (long long)key_range, (long long)vmul);
        s.set_steps(5 + s.skewed(200) + s.draw(40));
        bool special = false;
        while (s.more()) {
            Src::Scope sc(s);
            ++ctx.ops;
            if (s.draw(20) == 19) grow = 1 + s.draw(7);
            LockEdit e;
            size_t pos;
            Rep r;
            switch (s.draw(12)) {
                case 0: case 1: case 2: case 3: case 4: {
                    if (!gen(m, e, pos, r, grow) || (e == L_INSERT && (m.size() >= cap || full(versions.size())))) break;
                    unsigned how = s.draw(64);
                    ctx.log("transient %s at %zu (%lld,%lld), how %u", e == L_INSERT ? "insert" : e == L_ERASE ? "erase" : "assign", pos, (long long)r.k, (long long)r.v, how);
                    for (auto& t : trees) t->edit(e, pos, r, m.size(), how);
                    apply(m, e, pos, r);
                    observe_all(versions.size());
                    break;
                }
                case 5: case 6: {
                    // a run of edits of one kind
                    uint32_t n = 1 + s.draw(60), pattern = s.draw(3);
                    e = s.draw(8) < grow ? L_INSERT : L_ERASE;
                    unsigned how = s.draw(64);
                    ctx.log("run of %u transient %s, pattern %u, how %u", n, e == L_INSERT ? "inserts" : "erasures", pattern, how);
                    uint64_t g = s.draw(1u << 20);
                    for (uint32_t q = 0; q < n; ++q) {
                        if (e == L_INSERT ? (m.size() >= cap || full(versions.size())) : m.empty()) break;
                        g = mix64(g);
                        r.v = vmul * static_cast<int64_t>(g % 1000);
                        r.k = 0;
                        if (e == L_INSERT) {
                            if (map) {
                                r.k = pattern == 2 ? kadd + kmul * static_cast<int64_t>((g >> 20) % static_cast<uint64_t>(key_range)) : (static_cast<int64_t>(g % 3) + (m.empty() ? kadd : pattern ? m.front().k - 3 : m.back().k + 1));
                                pos = lower(m, r.k);
                                if (pos < m.size() && m[pos].k == r.k) continue;
                            } else pos = pattern == 0 ? m.size() : pattern == 1 ? 0 : (g >> 20) % (m.size() + 1);
                        } else {
                            pos = pattern == 0 ? m.size() - 1 : pattern == 1 ? 0 : (g >> 20) % m.size();
                            r = m[pos];
                        }
                        for (auto& t : trees) t->edit(e, pos, r, m.size(), how);
                        apply(m, e, pos, r);
                    }
                    observe_all(versions.size());
                    break;
                }
                case 7:
                    if (versions.size() >= 4) { for (auto& t : trees) t->drop(0); versions.erase(versions.begin()); }
                    ctx.log("snapshot");
                    for (auto& t : trees) t->snapshot();
                    versions.push_back(m);
                    special = true;
                    break;
                case 8: {
                    if (versions.empty()) break;
                    size_t v = s.draw(versions.size());
                    if (!gen(versions[v], e, pos, r, grow) || (e == L_INSERT && (versions[v].size() >= cap || full(v)))) break;
                    unsigned how = s.draw(64);
                    ctx.log("edit %d of version %zu at %zu (%lld,%lld), how %u", e, v, pos, (long long)r.k, (long long)r.v, how);
                    for (auto& t : trees) t->edit_version(v, e, pos, r, versions[v].size(), how);
                    Model x = versions[v];
                    apply(x, e, pos, r);
                    versions.push_back(x);
                    observe_all(versions.size() - 1);
                    if (versions.size() > 4) { for (auto& t : trees) t->drop(0); versions.erase(versions.begin()); }
                    break;
                }
                case 9: {
                    if (versions.empty()) break;
                    size_t v = s.draw(versions.size());
                    ctx.log("transient = version %zu", v);
                    for (auto& t : trees) t->restore(v);
                    m = versions[v];
                    break;
                }
                case 10:
                    if (s.draw(10)) break;
                    for (auto& t : trees) t->clear();
                    m.clear();
                    break;
                default:
                    for (int i = 0; i < 4; ++i) {
                        size_t v = s.draw(versions.size() + 1);
                        probe(v, v < versions.size() ? versions[v] : m);
                    }
            }
        }
        for (size_t v = 0; v <= versions.size(); ++v) {
            observe_all(v);
            compare(v, LQ_REVERSE, 0, 0, 0, s.draw(128));
        }
        ctx.nontrivial = special && trees.size() > 1 && (m.size() > 8 || ctx.ops > 10);
    }
    static void vec(Src& s, Ctx& ctx) { Lock l{s, ctx, false, {}, {}, {}}; l.run(); }
    static void map_(Src& s, Ctx& ctx) { Lock l{s, ctx, true, {}, {}, {}}; l.run(); }
};
Register r0("lockstep-vec", &Lock::vec);
Register r1("lockstep-map", &Lock::map_);
}
}
