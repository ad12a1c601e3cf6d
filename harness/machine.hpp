// Model-based state machine: a family of Transient and Persistent trees of one configuration is driven by a generated
// history and compared with std::vector models.  See DESIGN.md for the operations, the oracles and what is left out.
#pragma once

#include <algorithm>
#include <array>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>

#include "values.hpp"

// op groups can be compiled out per check (run.py), to keep compile times down
#ifndef PBT_GROUPS
#define PBT_GROUPS 0xffffffffu
#endif

namespace pbt {

enum Group : unsigned {
    G_PROXY = 1, G_ALGO = 2, G_REJ = 4, G_ALIAS = 8, G_FORMS = 16, G_MM = 32, G_PAIRS = 64, G_ORDQ = 128, G_SUMQ = 256, G_IDXQ = 512
};
constexpr bool has_group(unsigned g) { return ((PBT_GROUPS) & g) != 0; }

enum Op : size_t {
    PUSH, POP, INS_IT, ERA_IT, ASG_IT, UPD_IT, BULK, CLEAR, CONV, COPY, TRACK, STEP, LOOP,
    IDX_INS, IDX_ERA, IDX_ASG, IDX_UPD,
    ORD_INSV, ORD_IOA, ORD_ASG, ORD_ERA, ORD_UPD,
    PROXY, ALGO, REJ, ALIAS, QUERY, DROP, OP_COUNT
};
inline char const* op_name(size_t o) {
    static char const* n[] = {"push", "pop", "insert(it)", "erase(it)", "assign(it)", "update(it)", "bulk", "clear", "convert",
                              "copy/move", "track iterator", "step iterator", "iterator loop", "insert_index", "erase_index", "assign_index",
                              "update_index", "insert_v", "insert_or_assign", "assign_v", "erase_key", "update_key", "proxy",
                              "algorithm", "rejected operation", "aliased argument", "query", "drop tree"};
    return n[o];
}

enum Query : unsigned { QS = 1, QI = 2, QO = 4, QM = 8, QL = 16, QX = 32, QP = 64, QALL = 127 };

struct Profile {
    char const* check;
    unsigned queries;       // which queries are the point of this check
    int pers;               // of 8: how often an edit goes to a Persistent
    int all_slots;          // of 8: how often every other tree is audited after an edit
    int conv_boost;
    int probes;             // random probes after every edit
    unsigned char w[OP_COUNT];
    bool leaks;
    bool nonneg;            // only non-negative values
    bool throwing;
};
Profile const& profile_for(char const* check);

// what makes a history non-trivial, per check: counted by the machine while it runs
struct Seen {
    bool multi_level = false, shared_edit = false, erased = false, queried = false, special = false;
};

struct Rng {
    uint64_t s;
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

template <typename C>
struct Machine {
    using VK = typename C::VK;
    using T = typename C::Tree::Transient;
    using P = typename C::Tree::Persistent;
    using Value = typename VK::Value;
    using Key = typename VK::Key;
    using Mapped = typename VK::Mapped;

    static constexpr bool ordered = C::ordered, indexed = C::indexed, summed = C::summed, minned = C::minned, maxed = C::maxed,
                          safety = C::safety, single = VK::single;
    enum { FWD, CFWD, REV, CREV };

    template <typename Tr>
    struct It {
        using V = std::variant<typename Tr::iterator, typename Tr::const_iterator, typename Tr::reverse_iterator, typename Tr::const_reverse_iterator>;
        ssize_t pos;     // 0..n, or -1 (position before the first element, reverse only)
        V v;
        bool reversed() const { return v.index() >= 2; }
    };

    struct TSlot {
        std::unique_ptr<T> t = std::make_unique<T>();
        Model m;
        std::vector<It<T>> its;
    };
    struct PSlot {
        std::unique_ptr<P> p;
        Model m;
        std::vector<It<P>> its;
    };

    Src& s;
    Ctx& ctx;
    Profile const& prof;
    std::vector<TSlot> ts;
    std::vector<PSlot> ps;
    size_t cap = 64;
    int64_t key_range = 8, vlo = -1000, vhi = 1000;
    // drawn keys and values are mapped to kadd + kmul * k: far apart, or close together but far from zero
    int64_t kmul = 1, kadd = 0, vmul = 1, vadd = 0;
    bool dups = false;
    int64_t serial = 0;
    int weights[OP_COUNT];
    int grow = 4;                 // of 8
    Seen seen;

    Machine(Src& s, Ctx& ctx) : s(s), ctx(ctx), prof(profile_for(ctx.check)) {}

    // -------------------------------------------------------------------------------------------------- generators
    static bool kless(int64_t a, int64_t b) { return C::kless(a, b); }

    int64_t clampk(int64_t k) const { return std::clamp(k, VK::lo, VK::hi); }

    int64_t gen_key() {
        int64_t k = static_cast<int64_t>(s.draw(static_cast<uint64_t>(key_range)));
        return clampk(kadd + kmul * k);
    }
    int64_t gen_val0() {
        // small values and ties are frequent, extremes happen
        switch (s.draw(4)) {
            case 0: return std::clamp<int64_t>(s.draw(3), vlo, vhi);
            case 1: return std::clamp<int64_t>(vlo + static_cast<int64_t>(s.draw(7)), vlo, vhi);
            default: return vlo + static_cast<int64_t>(s.draw(static_cast<uint64_t>(vhi - vlo + 1)));
        }
    }
    int64_t gen_val() { return vadd + vmul * gen_val0(); }
    Rep gen_rep() {
        Rep r;
        if constexpr (single) {
            if constexpr (ordered) r.k = r.v = gen_key();
            else r.k = r.v = gen_val();
        } else {
            r.k = gen_key();
            r.v = gen_val();
        }
        return r;
    }
    Rep rng_rep(Rng& g) {
        Rep r;
        if constexpr (single) {
            if constexpr (ordered) r.k = r.v = clampk(kadd + kmul * static_cast<int64_t>(g.below(static_cast<uint64_t>(key_range))));
            else r.k = r.v = vadd + vmul * (vlo + static_cast<int64_t>(g.below(static_cast<uint64_t>(vhi - vlo + 1))));
        } else {
            r.k = clampk(kadd + kmul * static_cast<int64_t>(g.below(static_cast<uint64_t>(key_range))));
            r.v = vadd + vmul * (vlo + static_cast<int64_t>(g.below(static_cast<uint64_t>(vhi - vlo + 1))));
        }
        return r;
    }

    static size_t lb(Model const& m, int64_t k) {
        return static_cast<size_t>(std::lower_bound(m.begin(), m.end(), k, [](Rep const& a, int64_t k) { return kless(a.k, k); }) - m.begin());
    }
    static size_t ub(Model const& m, int64_t k) {
        return static_cast<size_t>(std::upper_bound(m.begin(), m.end(), k, [](int64_t k, Rep const& a) { return kless(k, a.k); }) - m.begin());
    }

    // may r stand at position p (replacing the element there if `replace`) without breaking the order?
    bool fits(Model const& m, size_t p, Rep const& r, bool replace) const {
        if constexpr (!ordered) return true;
        size_t nx = replace ? p + 1 : p;
        if (p > 0 && (dups ? kless(r.k, m[p - 1].k) : !kless(m[p - 1].k, r.k))) return false;
        if (nx < m.size() && (dups ? kless(m[nx].k, r.k) : !kless(r.k, m[nx].k))) return false;
        return true;
    }
    // a position and an element that may be inserted there; false: none found
    bool gen_insertion(Model const& m, size_t& p, Rep& r) {
        r = gen_rep();
        if constexpr (!ordered) {
            p = s.draw(m.size() + 1);
            return true;
        } else {
            size_t a = lb(m, r.k), b = ub(m, r.k);
            if (a != b && !dups) return false;
            p = a + s.draw(b - a + 1);
            return true;
        }
    }
    Rep gen_replacement(Model const& m, size_t p) {
        Rep r = gen_rep();
        if (fits(m, p, r, true)) return r;
        r.k = m[p].k;
        if constexpr (single) r.v = r.k;
        return r;
    }

    // ------------------------------------------------------------------------------------------------------- slots
    struct Sel { bool pers; size_t i; };

    Sel pick_target() {
        bool pers = !ps.empty() && s.draw(8) >= static_cast<uint32_t>(8 - prof.pers);
        if (pers) return {true, s.draw(ps.size())};
        return {false, s.draw(ts.size())};
    }
    Model const& model(Sel x) const { return x.pers ? ps[x.i].m : ts[x.i].m; }

    // false: the tree is at its depth limit and refused to grow (with safety checks; then nothing may have happened) or was
    // not asked to (without them)
    template <typename Tr, typename F>
    bool grows(Tr& t, F&& f) {
        if constexpr (safety) {
            try {
                f();
                return true;
            } catch (std::logic_error const& e) {
                PBT_CHECK(ctx, t.depth() == t.max_depth(), "insertion failed below the depth limit: %s", e.what());
                ctx.label("depth limit reached");
                cap = std::max<size_t>(t.size(), 4);
                return false;
            }
        } else {
            // nothing protects the limit in this build: stay away from it
            if (t.depth() >= t.max_depth()) {
                ctx.label("depth limit reached");
                cap = std::max<size_t>(t.size(), 4);
                return false;
            }
            f();
            return true;
        }
    }

    void note_edit(bool pers, size_t depth) {
        if (depth > 1) seen.multi_level = true;
        if (pers) seen.shared_edit = true;
    }

    PSlot& store(P&& p, Model m) {
        PSlot n;
        n.p = std::make_unique<P>(std::move(p));
        n.m = std::move(m);
        static constexpr size_t max_p = 5;
        if (ps.size() < max_p) {
            ps.push_back(std::move(n));
            return ps.back();
        }
        size_t i = s.draw(ps.size());
        ps[i] = std::move(n);
        return ps[i];
    }

    // -------------------------------------------------------------------------------------------------- iterators
    static ssize_t sz(Model const& m) { return static_cast<ssize_t>(m.size()); }

    template <typename Tr>
    It<Tr> make_it(Tr& t, Model const& m, int kind, ssize_t pos, int how) {
        using V = typename It<Tr>::V;
        ssize_t n = sz(m);
        Tr const& ct = t;
        auto fwd = [&](auto b, auto e) {
            // never step past the end, and never move on an empty tree
            if (how == 1 && n > 0 && pos < n) return e - (n - pos);
            if (pos == n) return e;
            return b + pos;
        };
        auto rev = [&](auto b, auto e) {
            if (pos < 0) return e;
            if (how == 1) return e - (pos + 1);
            return b + (n - 1 - pos);
        };
        switch (kind) {
            case FWD:
                if constexpr (indexed) if (how == 2) return {pos, V(std::in_place_index<0>, t.find_index(static_cast<typename C::Size>(pos)))};
                return {pos, V(std::in_place_index<0>, fwd(t.begin(), t.end()))};
            case CFWD:
                if constexpr (indexed) if (how == 2) return {pos, V(std::in_place_index<1>, t.find_index_const(static_cast<typename C::Size>(pos)))};
                if (how == 1) return {pos, V(std::in_place_index<1>, fwd(ct.begin(), ct.end()))};
                return {pos, V(std::in_place_index<1>, fwd(t.cbegin(), t.cend()))};
            case REV: return {pos, V(std::in_place_index<2>, rev(t.rbegin(), t.rend()))};
            default:
                if (how == 1) return {pos, V(std::in_place_index<3>, rev(ct.rbegin(), ct.rend()))};
                return {pos, V(std::in_place_index<3>, rev(t.crbegin(), t.crend()))};
        }
    }
    template <typename Tr>
    It<Tr> gen_it(Tr& t, Model const& m, ssize_t pos) {
        int kind = static_cast<int>(s.draw(4));
        if (pos < 0) kind |= 2;
        if (pos >= sz(m)) kind &= 1;
        return make_it(t, m, kind, pos, static_cast<int>(s.draw(3)));
    }

    template <typename I>
    void check_it(I const& it, Model const& m, ssize_t pos, char const* what) {
        bool in = pos >= 0 && pos < sz(m);
        PBT_CHECK(ctx, it.valid() == in, "%s: iterator expected at position %zd of %zu is %s", what, pos, m.size(), in ? "not valid" : "valid");
        if (in) {
            Rep r = VK::rep(it.get());
            PBT_CHECK(ctx, r == m[static_cast<size_t>(pos)], "%s: iterator expected at position %zd (%lld,%lld) refers to (%lld,%lld)", what, pos,
                      (long long)m[static_cast<size_t>(pos)].k, (long long)m[static_cast<size_t>(pos)].v, (long long)r.k, (long long)r.v);
        }
    }
    template <typename Tr>
    void check_it(It<Tr> const& it, Model const& m, char const* what) {
        std::visit([&](auto const& i) { check_it(i, m, it.pos, what); }, it.v);
    }
    // as check_it, and also compares with the position reached by walking from the front or back
    template <typename Tr>
    void check_it_deep(Tr& t, It<Tr>& it, Model const& m, char const* what) {
        check_it(it, m, what);
        std::visit([&](auto& i) {
            using I = std::decay_t<decltype(i)>;
            int kind = static_cast<int>(it.v.index());
            It<Tr> fresh = make_it(t, m, kind, it.pos, 0);
            PBT_CHECK(ctx, i == std::get<I>(fresh.v), "%s: iterator at position %zd does not equal a fresh iterator to that position", what, it.pos);
        }, it.v);
    }

    // --------------------------------------------------------------------------------------------------- content
    template <typename Tr>
    void check_content(Tr& t, Model const& m, char const* what, bool both_ways = true) {
        Tr const& c = t;
        PBT_CHECK(ctx, c.size() == m.size(), "%s: size() is %zu, the history says %zu", what, c.size(), m.size());
        PBT_CHECK(ctx, c.empty() == m.empty(), "%s: empty() disagrees with the size", what);
        size_t i = 0;
        auto e = c.cend();
        for (auto it = c.cbegin(); it != e; ++it, ++i) {
            PBT_CHECK(ctx, i < m.size(), "%s: traversal does not end after %zu elements", what, m.size());
            Rep r = VK::rep(*it);
            PBT_CHECK(ctx, r == m[i], "%s: element %zu of %zu is (%lld,%lld), the history says (%lld,%lld)", what, i, m.size(), (long long)r.k, (long long)r.v, (long long)m[i].k, (long long)m[i].v);
        }
        PBT_CHECK(ctx, i == m.size(), "%s: traversal ends after %zu of %zu elements", what, i, m.size());
        if (both_ways) {
            i = m.size();
            auto re = c.crend();
            for (auto it = c.crbegin(); it != re; ++it) {
                PBT_CHECK(ctx, i > 0, "%s: reverse traversal does not end after %zu elements", what, m.size());
                --i;
                Rep r = VK::rep(*it);
                PBT_CHECK(ctx, r == m[i], "%s: element %zu of %zu met in reverse is (%lld,%lld), the history says (%lld,%lld)", what, i, m.size(), (long long)r.k, (long long)r.v, (long long)m[i].k, (long long)m[i].v);
            }
            PBT_CHECK(ctx, i == 0, "%s: reverse traversal ends %zu elements early", what, i);
        }
        if (!m.empty()) {
            PBT_CHECK(ctx, VK::rep(c.front()) == m.front(), "%s: front() is not the first element", what);
            PBT_CHECK(ctx, VK::rep(c.back()) == m.back(), "%s: back() is not the last element", what);
        }
        PBT_CHECK(ctx, c.depth() >= 1 && c.depth() <= c.max_depth(), "%s: depth() %zu is outside 1..max_depth() %zu", what, c.depth(), c.max_depth());
        PBT_CHECK(ctx, c.size() <= c.max_size(), "%s: size() is greater than max_size()", what);
        check_misuse();
    }

    void check_misuse() {
        char const* w = Tracked::misuse;
        if (w) {
            Tracked::misuse = nullptr;
            ctx.fail("element lifetime: %s", w);
        }
    }

    // --------------------------------------------------------------------------------------------------- queries
    static int64_t n_sum(Model const& m, size_t end) {
        int64_t r = 0;
        for (size_t i = 0; i < end; ++i) r += C::sum_of(m[i]);
        return r;
    }
    bool nonneg(Model const& m) const {
        for (auto& r : m) if (C::sum_of(r) < 0) return false;
        return true;
    }

    template <typename Tr>
    void q_seq(Tr& t, Model const& m) {
        // non-const iteration goes through proxies
        size_t i = 0;
        switch (s.draw(3)) {
            case 0:
                for (auto it = t.begin(), e = t.end(); it != e; ++it, ++i) {
                    Value const& v = *it;
                    PBT_CHECK(ctx, i < m.size() && VK::rep(v) == m[i], "iteration: element %zu of %zu is wrong", i, m.size());
                }
                PBT_CHECK(ctx, i == m.size(), "iteration visits %zu of %zu elements", i, m.size());
                break;
            case 1:
                i = m.size();
                for (auto it = t.rbegin(), e = t.rend(); it != e; it++) {
                    PBT_CHECK(ctx, i > 0, "reverse iteration does not end");
                    --i;
                    Value const& v = *it;
                    PBT_CHECK(ctx, VK::rep(v) == m[i], "reverse iteration: element %zu of %zu is wrong", i, m.size());
                }
                PBT_CHECK(ctx, i == 0, "reverse iteration ends %zu elements early", i);
                break;
            default: {
                Tr const& c = t;
                i = m.size();
                auto it = c.end();
                while (i > 0) {
                    --it;
                    --i;
                    check_it(it, m, static_cast<ssize_t>(i), "backward walk from the end");
                }
                PBT_CHECK(ctx, it == c.begin(), "walking back from the end does not arrive at the beginning");
            }
        }
    }

    template <typename Tr>
    void q_pairs(Tr& t, Model const& m) {
        ssize_t n = sz(m);
        if (n == 0) {
            PBT_CHECK(ctx, t.begin() == t.end(), "empty tree: begin() != end()");
            PBT_CHECK(ctx, t.rbegin() == t.rend(), "empty tree: rbegin() != rend()");
            PBT_CHECK(ctx, !(t.begin() < t.end()) && t.begin() <= t.end() && t.cbegin() >= t.cend(), "empty tree: begin() and end() are not equivalent");
            return;
        }
        bool rev = s.draw(2);
        ssize_t a = rev ? s.range(-1, n - 1) : s.range(0, n);
        ssize_t b = s.draw(4) == 0 ? a : rev ? s.range(-1, n - 1) : s.range(0, n);
        int ka = static_cast<int>(s.draw(2)), kb = static_cast<int>(s.draw(2));
        It<Tr> x = make_it(t, m, (rev ? 2 : 0) + ka, a, static_cast<int>(s.draw(3)));
        It<Tr> y = make_it(t, m, (rev ? 2 : 0) + kb, b, static_cast<int>(s.draw(3)));
        ctx.log("    compare/jump %s iterators at %zd and %zd", rev ? "reverse" : "forward", a, b);
        check_it(x, m, "fresh iterator");
        check_it(y, m, "fresh iterator");
        std::visit([&](auto& i, auto& j) {
            using I = std::decay_t<decltype(i)>;
            using J = std::decay_t<decltype(j)>;
            if constexpr (I::is_reversed == J::is_reversed) {
                ssize_t d = rev ? a - b : b - a;       // steps from i to j
                PBT_CHECK(ctx, (i == j) == (d == 0), "== is wrong for positions %zd and %zd", a, b);
                PBT_CHECK(ctx, (i != j) == (d != 0), "!= is wrong for positions %zd and %zd", a, b);
                PBT_CHECK(ctx, (i < j) == (d > 0), "< is wrong for positions %zd and %zd", a, b);
                PBT_CHECK(ctx, (i > j) == (d < 0), "> is wrong for positions %zd and %zd", a, b);
                PBT_CHECK(ctx, (i <= j) == (d >= 0), "<= is wrong for positions %zd and %zd", a, b);
                PBT_CHECK(ctx, (i >= j) == (d <= 0), ">= is wrong for positions %zd and %zd", a, b);
                if constexpr (indexed) {
                    PBT_CHECK(ctx, (j - i) == d, "iterator difference is %zd for positions %zd and %zd (%s)", static_cast<ssize_t>(j - i), a, b, rev ? "reverse" : "forward");
                }
                // jumps, in every form
                I c = i;
                switch (s.draw(6)) {
                    case 0: c += d; break;
                    case 1: c -= -d; break;
                    case 2: c = i + d; break;
                    case 3: c = i - (-d); break;
                    case 4: {
                        for (ssize_t q = 0; q < d; ++q) ++c;
                        for (ssize_t q = 0; q > d; --q) --c;
                        break;
                    }
                    default: {
                        for (ssize_t q = 0; q < d; ++q) {
                            I old = c++;
                            PBT_CHECK(ctx, old.valid(), "postfix ++ returns an iterator that is not valid");
                        }
                        for (ssize_t q = 0; q > d; --q) {
                            I old = c--;
                            PBT_CHECK(ctx, old != c, "postfix -- returns the moved iterator");
                        }
                    }
                }
                check_it(c, m, b, "moved iterator");
                PBT_CHECK(ctx, c == j, "iterator moved by %zd from %zd does not equal an iterator at %zd", d, a, b);
                if (b >= 0 && b < n) {
                    Value const& v = i[d];
                    PBT_CHECK(ctx, VK::rep(v) == m[static_cast<size_t>(b)], "it[%zd] from position %zd is wrong", d, a);
                    PBT_CHECK(ctx, VK::rep(*(j.operator->())) == m[static_cast<size_t>(b)], "operator-> at %zd is wrong", b);
                    Value const& w = *j;
                    PBT_CHECK(ctx, VK::rep(w) == m[static_cast<size_t>(b)], "operator* at %zd is wrong", b);
                }
            }
        }, x.v, y.v);
    }

    template <typename Tr>
    void q_idx(Tr& t, Model const& m) {
        if constexpr (indexed) {
            using Sz = typename C::Size;
            Tr const& c = t;
            size_t p = s.draw(m.size() + 1);
            It<Tr> it = gen_it(t, m, static_cast<ssize_t>(p));
            ctx.log("    index query at %zu", p);
            std::visit([&](auto& i) {
                PBT_CHECK(ctx, static_cast<size_t>(t.order(i)) == p, "order() of the iterator at %zu is %zu", p, static_cast<size_t>(t.order(i)));
            }, it.v);
            auto f = t.find_index(static_cast<Sz>(p));
            auto g = c.find_index(static_cast<Sz>(p));
            auto h = t.find_index_const(static_cast<Sz>(p));
            check_it(f, m, static_cast<ssize_t>(p), "find_index");
            check_it(g, m, static_cast<ssize_t>(p), "find_index on a const tree");
            check_it(h, m, static_cast<ssize_t>(p), "find_index_const");
            PBT_CHECK(ctx, f == g && g == h, "find_index and find_index_const disagree");
            if (p == m.size()) {
                PBT_CHECK(ctx, f == t.end(), "find_index(size()) is not end()");
            } else {
                PBT_CHECK(ctx, VK::rep(c.at_index(static_cast<Sz>(p))) == m[p], "at_index(%zu) is wrong", p);
                // with both Ordered and Indexed, which operator[] is meant is decided by the order of the mixins
                if constexpr (!ordered) {
                    Sz const ix = static_cast<Sz>(p);
                    PBT_CHECK(ctx, VK::rep(c[ix]) == m[p], "operator[](%zu) is wrong", p);
                }
            }
        }
    }

    template <typename Tr, typename I>
    bool at_position(Tr& t, Model const& m, I const& it, size_t p) {
        It<Tr> f = make_it(t, m, CFWD, static_cast<ssize_t>(p), 0);
        return it == std::get<1>(f.v);
    }

    template <typename Tr>
    void q_ord(Tr& t, Model const& m, std::optional<int64_t> fixed = {}) {
        if constexpr (ordered) {
            Tr const& c = t;
            int64_t k;
            if (fixed) k = *fixed;
            else {
                k = gen_key();
                if (!m.empty()) {
                    switch (s.draw(4)) {
                        case 0: break;
                        case 1: k = m[s.draw(m.size())].k; break;
                        case 2: k = clampk(m[s.draw(m.size())].k + 1); break;
                        default: k = clampk(m[s.draw(m.size())].k - 1); break;
                    }
                }
            }
            size_t a = lb(m, k), b = ub(m, k);
            bool present = a != b;
            ctx.log("    key query %lld (%s)", (long long)k, present ? "present" : "absent");
            typename VK::Key key = VK::key(k);
            auto check_find = [&](auto const& it, char const* what) {
                if (!present) {
                    PBT_CHECK(ctx, !it.valid() && it == c.end(), "%s(%lld): the key is absent but the result is not end()", what, (long long)k);
                    return;
                }
                PBT_CHECK(ctx, it.valid(), "%s(%lld): the key is present but was not found", what, (long long)k);
                Rep r = VK::rep(it.get());
                bool ok = false;
                for (size_t i = a; i < b && !ok; ++i) if (m[i] == r && (b - a == 1 || b - a > 6 || at_position(t, m, it, i))) ok = true;
                PBT_CHECK(ctx, ok, "%s(%lld) returned (%lld,%lld), which is no element with that key", what, (long long)k, (long long)r.k, (long long)r.v);
            };
            auto check_bound = [&](auto const& it, size_t p, char const* what) {
                check_it(it, m, static_cast<ssize_t>(p), what);
                PBT_CHECK(ctx, at_position(t, m, it, p), "%s(%lld) is not at position %zu", what, (long long)k, p);
            };
            check_find(t.find(key), "find");
            check_find(c.find(key), "const find");
            check_find(t.find_const(key), "find_const");
            check_bound(t.lower_bound(key), a, "lower_bound");
            check_bound(c.lower_bound(key), a, "const lower_bound");
            check_bound(t.lower_bound_const(key), a, "lower_bound_const");
            check_bound(t.upper_bound(key), b, "upper_bound");
            check_bound(c.upper_bound(key), b, "const upper_bound");
            check_bound(t.upper_bound_const(key), b, "upper_bound_const");
            PBT_CHECK(ctx, c.contains(key) == present, "contains(%lld) is %d", (long long)k, c.contains(key));
            if (present) {
                auto const& v1 = c.at_key(key);
                bool ok1 = false, ok2 = false;
                for (size_t i = a; i < b; ++i) if (i64(v1) == (single ? m[i].k : m[i].v)) ok1 = true;
                PBT_CHECK(ctx, ok1, "at_key(%lld) returned %lld", (long long)k, (long long)i64(v1));
                // operator[] by key hides or is hidden by operator[] by index when both mixins are present
                if constexpr (!indexed) {
                    auto const& v2 = c[key];
                    for (size_t i = a; i < b; ++i) if (i64(v2) == (single ? m[i].k : m[i].v)) ok2 = true;
                    PBT_CHECK(ctx, ok2, "operator[](%lld) returned %lld", (long long)k, (long long)i64(v2));
                }
            } else if constexpr (safety) {
                bool threw = false;
                try { (void)c.at_key(key); } catch (std::logic_error const&) { threw = true; }
                PBT_CHECK(ctx, threw, "at_key(%lld): the key is absent but nothing was thrown", (long long)k);
            }
        }
    }

    template <typename Tr>
    void q_sum(Tr& t, Model const& m) {
        if constexpr (summed) {
            Tr const& c = t;
            int64_t total = n_sum(m, m.size());
            PBT_CHECK(ctx, C::sum_int(c.sum()) == total, "sum() is %lld, the elements add up to %lld", (long long)c.sum(), (long long)total);
            size_t p = s.draw(m.size() + 1);
            int kind = static_cast<int>(s.draw(2));
            It<Tr> it = make_it(t, m, kind, static_cast<ssize_t>(p), static_cast<int>(s.draw(3)));
            int64_t before = n_sum(m, p);
            ctx.log("    sums at %zu", p);
            auto go = [&](auto& i) {
                PBT_CHECK(ctx, C::sum_int(c.sum_exclusive(i)) == before, "sum_exclusive at %zu is %lld, expected %lld", p, (long long)c.sum_exclusive(i), (long long)before);
                if (p < m.size())
                    PBT_CHECK(ctx, C::sum_int(c.sum_inclusive(i)) == before + C::sum_of(m[p]), "sum_inclusive at %zu is %lld, expected %lld", p, (long long)c.sum_inclusive(i), (long long)(before + C::sum_of(m[p])));
            };
            if (kind == FWD) go(std::get<0>(it.v)); else go(std::get<1>(it.v));
        }
    }

    template <typename Tr>
    void q_slb(Tr& t, Model const& m) {
        if constexpr (summed) {
            if (!nonneg(m)) return;
            Tr const& c = t;
            std::vector<int64_t> pre(m.size() + 1, 0);
            for (size_t i = 0; i < m.size(); ++i) pre[i + 1] = pre[i] + C::sum_of(m[i]);
            int64_t total = pre.back(), target;
            switch (s.draw(4)) {
                case 0: target = pre[s.draw(pre.size())]; break;
                case 1: target = pre[s.draw(pre.size())] + 1; break;
                case 2: target = pre[s.draw(pre.size())] - 1; break;
                default: target = static_cast<int64_t>(s.draw(static_cast<uint64_t>(total + 3))); break;
            }
            if (target < 0) target = 0;
            size_t p = 0;
            while (p < m.size() && pre[p + 1] < target) ++p;
            if (m.empty()) p = 0;
            ctx.log("    sum_lower_bound(%lld) of total %lld", (long long)target, (long long)total);
            using St = typename C::Sum;
            auto a = t.sum_lower_bound(C::template sum_from<St>(target));
            auto b = c.sum_lower_bound(C::template sum_from<St>(target));
            auto d = t.sum_lower_bound_const(C::template sum_from<St>(target));
            auto chk = [&](auto const& it, char const* what) {
                check_it(it, m, static_cast<ssize_t>(p), what);
                PBT_CHECK(ctx, at_position(t, m, it, p), "%s(%lld) is not at position %zu of %zu", what, (long long)target, p, m.size());
            };
            chk(a, "sum_lower_bound");
            chk(b, "const sum_lower_bound");
            chk(d, "sum_lower_bound_const");
        }
    }

    template <typename Tr>
    void q_mm(Tr& t, Model const& m) {
        if constexpr (minned || maxed) {
            if (m.empty()) return;
            ssize_t n = sz(m);
            Tr const& c = t;
            ssize_t a = s.range(0, n - 1), b = s.range(a + 1, n);     // [a, b)
            bool whole = s.draw(4) == 0;
            if (whole) { a = 0; b = n; }
            int kind = static_cast<int>(s.draw(4)), how = static_cast<int>(s.draw(3)), how2 = static_cast<int>(s.draw(3));
            bool rev = kind >= REV;
            It<Tr> x = make_it(t, m, kind, rev ? b - 1 : a, how);
            It<Tr> y = make_it(t, m, kind, rev ? a - 1 : b, how2);
            ctx.log("    extrema of [%zd, %zd) by %s iterators", a, b, rev ? "reverse" : "forward");
            auto one = [&](auto value_of, auto less, auto q0, auto q2, auto e0, auto ec0, auto eco0, auto e2, auto ec2, auto eco2, char const* what) {
                int64_t best = value_of(m[static_cast<size_t>(a)]);
                for (ssize_t i = a + 1; i < b; ++i) if (less(value_of(m[static_cast<size_t>(i)]), best)) best = value_of(m[static_cast<size_t>(i)]);
                int64_t all = value_of(m[0]);
                for (auto& r : m) if (less(value_of(r), all)) all = value_of(r);
                auto same = [&](int64_t u, int64_t v) { return !less(u, v) && !less(v, u); };
                int64_t got = q0();
                PBT_CHECK(ctx, same(got, all), "%s() is %lld, expected %lld", what, (long long)got, (long long)all);
                auto elem = [&](auto const& it, ssize_t lo, ssize_t hi, int64_t want, char const* form) {
                    PBT_CHECK(ctx, it.valid(), "%s_element%s is not valid", what, form);
                    Rep r = VK::rep(it.get());
                    PBT_CHECK(ctx, same(value_of(r), want), "%s_element%s over [%zd, %zd) refers to %lld, expected %lld", what, form, lo, hi, (long long)value_of(r), (long long)want);
                    It<Tr> f = make_it(t, m, CFWD, lo, 0), l = make_it(t, m, CFWD, hi, 0);
                    PBT_CHECK(ctx, !(it < std::get<1>(f.v)) && it < std::get<1>(l.v), "%s_element%s is outside [%zd, %zd)", what, form, lo, hi);
                    bool here = false;
                    for (ssize_t i = lo; i < hi && !here; ++i) if (m[static_cast<size_t>(i)] == r) here = true;
                    PBT_CHECK(ctx, here, "%s_element%s refers to no element of [%zd, %zd)", what, form, lo, hi);
                };
                elem(e0(), 0, n, all, "()");
                elem(ec0(), 0, n, all, "() const");
                elem(eco0(), 0, n, all, "_const()");
                std::visit([&](auto& i) {
                    using I = std::decay_t<decltype(i)>;
                    I const& j = std::get<I>(y.v);
                    int64_t g2 = q2(i, j);
                    PBT_CHECK(ctx, same(g2, best), "%s over [%zd, %zd) is %lld, expected %lld", what, a, b, (long long)g2, (long long)best);
                    elem(e2(i, j), a, b, best, "(b,e)");
                    elem(ec2(i, j), a, b, best, "(b,e) const");
                    elem(eco2(i, j), a, b, best, "_const(b,e)");
                }, x.v);
            };
            if constexpr (minned) {
                one([](Rep const& r) { return C::min_of(r); }, [](int64_t u, int64_t v) { return C::min_less(u, v); },
                    [&] { return i64(c.min()); }, [&](auto const& i, auto const& j) { return i64(c.min(i, j)); },
                    [&] { return t.min_element(); }, [&] { return c.min_element(); }, [&] { return c.min_element_const(); },
                    [&](auto const& i, auto const& j) { return t.min_element(i, j); }, [&](auto const& i, auto const& j) { return c.min_element(i, j); },
                    [&](auto const& i, auto const& j) { return c.min_element_const(i, j); }, "min");
            }
            if constexpr (maxed) {
                one([](Rep const& r) { return C::max_of(r); }, [](int64_t u, int64_t v) { return C::max_less(u, v); },
                    [&] { return i64(c.max()); }, [&](auto const& i, auto const& j) { return i64(c.max(i, j)); },
                    [&] { return t.max_element(); }, [&] { return c.max_element(); }, [&] { return c.max_element_const(); },
                    [&](auto const& i, auto const& j) { return t.max_element(i, j); }, [&](auto const& i, auto const& j) { return c.max_element(i, j); },
                    [&](auto const& i, auto const& j) { return c.max_element_const(i, j); }, "max");
            }
        }
    }

    template <typename Tr>
    void probe(Tr& t, Model const& m, unsigned which) {
        unsigned avail = QS;
        if (has_group(G_PAIRS)) avail |= QP;
        if (indexed && has_group(G_IDXQ)) avail |= QI;
        if (ordered && has_group(G_ORDQ)) avail |= QO;
        if (summed && has_group(G_SUMQ)) avail |= QM | QL;
        if ((minned || maxed) && has_group(G_MM)) avail |= QX;
        which &= avail;
        if (!which) return;
        // one of the enabled ones
        unsigned bits[7], n = 0;
        for (unsigned b = 1; b <= QP; b <<= 1) if (which & b) bits[n++] = b;
        unsigned b = bits[s.draw(n)];
        seen.queried = true;
        switch (b) {
            case QS: q_seq(t, m); break;
            case QI: if constexpr (has_group(G_IDXQ)) q_idx(t, m); break;
            case QO: if constexpr (has_group(G_ORDQ)) q_ord(t, m); break;
            case QM: if constexpr (has_group(G_SUMQ)) q_sum(t, m); break;
            case QL: if constexpr (has_group(G_SUMQ)) q_slb(t, m); break;
            case QX: if constexpr (has_group(G_MM)) q_mm(t, m); break;
            case QP: if constexpr (has_group(G_PAIRS)) q_pairs(t, m); break;
        }
        check_misuse();
    }

    template <typename Tr>
    void check_iterators(Tr& t, Model const& m, std::vector<It<Tr>>& its, char const* what) {
        for (auto& it : its) {
            check_it(it, m, what);
        }
        if (!its.empty()) check_it_deep(t, its[s.draw(its.size())], m, what);
    }

    void audit(Sel x, char const* what, bool probes = true) {
        if (x.pers) {
            auto& p = ps[x.i];
            check_content(*p.p, p.m, what, p.m.size() <= 48 || s.draw(4) == 0);
            check_iterators(*p.p, p.m, p.its, what);
            if (probes) for (int i = 0; i < prof.probes; ++i) probe(*p.p, p.m, prof.queries);
        } else {
            auto& t = ts[x.i];
            check_content(*t.t, t.m, what, t.m.size() <= 48 || s.draw(4) == 0);
            check_iterators(*t.t, t.m, t.its, what);
            if (probes) for (int i = 0; i < prof.probes; ++i) probe(*t.t, t.m, prof.queries);
        }
    }
    void audit_all(char const* what) {
        for (size_t i = 0; i < ts.size(); ++i) audit({false, i}, what);
        for (size_t i = 0; i < ps.size(); ++i) audit({true, i}, what);
    }
    void after_edit(Sel x, char const* what) {
        size_t n = model(x).size();
        note_edit(x.pers, x.pers ? ps[x.i].p->depth() : ts[x.i].t->depth());
        if (n <= 48 || s.draw(6) == 0) audit(x, what);
        else {
            // cheap form: size and the probes
            size_t sz = x.pers ? ps[x.i].p->size() : ts[x.i].t->size();
            PBT_CHECK(ctx, sz == n, "%s: size() is %zu, the history says %zu", what, sz, n);
            if (x.pers) probe(*ps[x.i].p, ps[x.i].m, prof.queries);
            else { probe(*ts[x.i].t, ts[x.i].m, prof.queries); check_iterators(*ts[x.i].t, ts[x.i].m, ts[x.i].its, what); }
        }
        if (prof.all_slots && s.draw(8) >= static_cast<uint32_t>(8 - prof.all_slots)) {
            size_t k = s.draw(ts.size() + ps.size());
            Sel y = k < ts.size() ? Sel{false, k} : Sel{true, k - ts.size()};
            if (model(y).size() <= 300) audit(y, "another tree after the edit", false);
        }
        check_misuse();
    }

    // -------------------------------------------------------------------------------------------------- editing
    // structural change of a transient: every tracked iterator except the one used is forgotten
    void forget(TSlot& t) { t.its.clear(); }

    struct Upd {
        Rep const* want;
        Rep result;
        bool* wrong;
        bool do_throw;
        Value operator()(Value const& v) const {
            if (want && VK::rep(v) != *want) *wrong = true;
            if (do_throw) throw std::runtime_error("updater");
            return VK::make(result);
        }
    };
    struct UpdM {
        int64_t lo_hi_ok;       // unused
        std::vector<int64_t> const* cand;
        Rep result;
        bool* wrong;
        bool do_throw;
        int64_t* got;
        Mapped operator()(Mapped const& v) const {
            int64_t x = i64(v);
            *got = x;
            if (std::find(cand->begin(), cand->end(), x) == cand->end()) *wrong = true;
            if (do_throw) throw std::runtime_error("updater");
            return VK::mapped(result);
        }
    };

    template <typename F>
    void args(Rep const& r, F&& f) {
        if constexpr (has_group(G_FORMS)) {
            bool const named = s.draw(3) == 0;
            VK::args(r, static_cast<int>(s.draw(4)), [&](auto&&... a) {
                // the caller's variables, not const: the operation has to leave them as they were
                if constexpr ((std::is_copy_constructible_v<std::decay_t<decltype(a)>> && ...)) {
                    if (named) return lend(f, a...);
                }
                f(std::forward<decltype(a)>(a)...);
            });
        } else VK::args2(r, static_cast<int>(s.draw(2)), f);
    }
    template <typename F, typename... A>
    void lend(F&& f, A&... a) {
        std::tuple<std::decay_t<A>...> const before(a...);
        f(a...);
        unchanged(before, std::index_sequence_for<A...>(), a...);
    }
    template <typename B, size_t... I, typename... A>
    void unchanged(B const& before, std::index_sequence<I...>, A&... a) {
        PBT_CHECK(ctx, ((std::get<I>(before) == a) && ...), "the operation changed the variable it was given");
    }
    // ref = v with v a temporary, a variable or a const variable
    template <typename Ref, typename X>
    void assign_some(Ref&& ref, X v) {
        switch (s.draw(3)) {
            case 0: ref = std::move(v); break;
            case 1: { X const before(v); ref = v; PBT_CHECK(ctx, v == before, "the assignment changed the variable it was given"); break; }
            default: { X const& cv = v; ref = cv; }
        }
    }

    void op_push() {
        Sel x = pick_target();
        Model const& m0 = model(x);
        if (m0.size() >= cap) return op_pop();
        bool front = s.draw(2);
        Rep r = gen_rep();
        if constexpr (ordered) {
            if (!m0.empty()) {
                int64_t d = static_cast<int64_t>(s.draw(4)) + (dups ? 0 : 1);
                int64_t base = front ? m0.front().k : m0.back().k;
                bool up = kless(0, 1) != front;
                r.k = up ? base + d : base - d;
                if (r.k < VK::lo || r.k > VK::hi || !fits(m0, front ? 0 : m0.size(), r, false)) return op_pop();
                if constexpr (single) r.v = r.k;
            }
        }
        bool emplace = s.draw(2);
        ctx.log("%s.%s_%s(%lld,%lld)", name(x).c_str(), emplace ? "emplace" : "push", front ? "front" : "back", (long long)r.k, (long long)r.v);
        Model m2;
        auto put = [&](Model& m) { m.insert(front ? m.begin() : m.end(), r); };
        if (!x.pers) {
            TSlot& t = ts[x.i];
            bool ok = grows(*t.t, [&] {
                args(r, [&](auto&&... a) {
                    if (front) { if (emplace) t.t->emplace_front(std::forward<decltype(a)>(a)...); else t.t->push_front(std::forward<decltype(a)>(a)...); }
                    else { if (emplace) t.t->emplace_back(std::forward<decltype(a)>(a)...); else t.t->push_back(std::forward<decltype(a)>(a)...); }
                });
            });
            if (ok) { put(t.m); forget(t); }
            after_edit(x, "after push");
        } else {
            PSlot& p = ps[x.i];
            P const& c = *p.p;
            std::optional<P> q;
            bool ok = grows(*p.p, [&] {
                args(r, [&](auto&&... a) {
                    if (front) q.emplace(emplace ? c.emplace_front(std::forward<decltype(a)>(a)...) : c.push_front(std::forward<decltype(a)>(a)...));
                    else q.emplace(emplace ? c.emplace_back(std::forward<decltype(a)>(a)...) : c.push_back(std::forward<decltype(a)>(a)...));
                });
            });
            audit(x, "original after a persistent push", false);
            if (ok) { m2 = p.m; put(m2); finish_p(std::move(*q), std::move(m2), "after persistent push"); }
        }
    }

    void finish_p(P&& q, Model m, char const* what) {
        PSlot& n = store(std::move(q), std::move(m));
        after_edit({true, static_cast<size_t>(&n - ps.data())}, what);
        if (s.draw(4) == 0) track_p(n);
    }

    void op_pop() {
        Sel x = pick_target();
        if (model(x).empty()) return;
        bool front = s.draw(2);
        ctx.log("%s.pop_%s()", name(x).c_str(), front ? "front" : "back");
        seen.erased = true;
        if (!x.pers) {
            TSlot& t = ts[x.i];
            Rep want = front ? t.m.front() : t.m.back();
            Value v = front ? t.t->pop_front() : t.t->pop_back();
            PBT_CHECK(ctx, VK::rep(v) == want, "pop returned (%lld,%lld), the element was (%lld,%lld)", (long long)VK::rep(v).k, (long long)VK::rep(v).v, (long long)want.k, (long long)want.v);
            t.m.erase(front ? t.m.begin() : t.m.end() - 1);
            forget(t);
            after_edit(x, "after pop");
        } else {
            PSlot& p = ps[x.i];
            P const& c = *p.p;
            P q(front ? c.pop_front() : c.pop_back());
            Model m = p.m;
            m.erase(front ? m.begin() : m.end() - 1);
            audit(x, "original after a persistent pop", false);
            finish_p(std::move(q), std::move(m), "after persistent pop");
        }
    }

    std::string name(Sel x) const { return (x.pers ? "P" : "T") + std::to_string(x.i) + "[" + std::to_string(model(x).size()) + "]"; }

    // an iterator to position pos for an edit: sometimes one that has been held for a while
    template <typename Slot, typename Tr>
    It<Tr> take_it(Slot& sl, Tr& t, ssize_t pos, bool fixed, ssize_t& out_pos) {
        if (!sl.its.empty() && s.draw(2)) {
            size_t k = s.draw(sl.its.size());
            It<Tr> it = sl.its[k];
            if (!fixed || it.pos == pos) {
                out_pos = it.pos;
                return it;
            }
        }
        out_pos = pos;
        return gen_it(t, sl.m, pos);
    }

    void keep(TSlot& t, It<T> it) {
        if (t.its.size() < 6) t.its.push_back(it);
    }

    void op_ins_it() {
        Sel x = pick_target();
        if (model(x).size() >= cap) return op_era_it();
        Rep r;
        size_t p = 0;
        if (!gen_insertion(model(x), p, r)) return;
        ins_it_at(x, p, r);
    }
    void ins_it_at(Sel x, size_t p, Rep r) {
        // a forward iterator at p, or a reverse iterator at p-1, inserts at p
        auto pick = [&](auto& sl, auto& t) {
            using Tr = std::decay_t<decltype(t)>;
            if constexpr (!ordered) {
                if (!sl.its.empty() && s.draw(2)) {
                    It<Tr> it = sl.its[s.draw(sl.its.size())];
                    p = static_cast<size_t>(it.reversed() ? it.pos + 1 : it.pos);
                    return it;
                }
            }
            int kind = static_cast<int>(s.draw(4));
            int how = static_cast<int>(s.draw(3));
            return make_it(t, sl.m, kind, kind >= REV ? static_cast<ssize_t>(p) - 1 : static_cast<ssize_t>(p), how);
        };
        if (!x.pers) {
            TSlot& t = ts[x.i];
            It<T> it = pick(t, *t.t);
            ctx.log("%s.insert(%s iterator, before %zu, (%lld,%lld))", name(x).c_str(), it.reversed() ? "reverse" : "forward", p, (long long)r.k, (long long)r.v);
            bool lvalue = s.draw(4) != 0;
            bool ok = grows(*t.t, [&] {
                std::visit([&](auto& i) {
                    args(r, [&](auto&&... a) {
                        if (lvalue) t.t->insert(i, std::forward<decltype(a)>(a)...);
                        else { auto j = i; t.t->insert(std::move(j), std::forward<decltype(a)>(a)...); }
                    });
                }, it.v);
            });
            forget(t);
            if (ok) {
                t.m.insert(t.m.begin() + static_cast<ssize_t>(p), r);
                if (lvalue) {
                    it.pos = static_cast<ssize_t>(p);
                    check_it_deep(*t.t, it, t.m, "iterator used for insert");
                    if (s.draw(2)) keep(t, it);
                }
            }
            after_edit(x, "after insert by iterator");
        } else {
            PSlot& sl = ps[x.i];
            It<P> it = pick(sl, *sl.p);
            ctx.log("%s.insert(%s iterator, before %zu, (%lld,%lld)) -> new", name(x).c_str(), it.reversed() ? "reverse" : "forward", p, (long long)r.k, (long long)r.v);
            std::optional<P> q;
            P const& c = *sl.p;
            bool ok = grows(*sl.p, [&] {
                std::visit([&](auto const& i) {
                    args(r, [&](auto&&... a) { q.emplace(c.insert(i, std::forward<decltype(a)>(a)...)); });
                }, it.v);
            });
            check_it(it, sl.m, "iterator used for a persistent insert");
            audit(x, "original after a persistent insert", false);
            if (ok) {
                Model m = sl.m;
                m.insert(m.begin() + static_cast<ssize_t>(p), r);
                finish_p(std::move(*q), std::move(m), "after persistent insert by iterator");
            }
        }
    }

    void op_era_it() {
        Sel x = pick_target();
        if (model(x).empty()) return;
        era_it_at(x, static_cast<ssize_t>(s.draw(model(x).size())));
    }
    void era_it_at(Sel x, ssize_t p) {
        seen.erased = true;
        if (!x.pers) {
            TSlot& t = ts[x.i];
            It<T> it = gen_it(*t.t, t.m, p);
            if (!t.its.empty() && s.draw(2)) {
                It<T> h = t.its[s.draw(t.its.size())];
                if (h.pos >= 0 && h.pos < sz(t.m)) { it = h; p = h.pos; }
            }
            ctx.log("%s.erase(%s iterator at %zd)", name(x).c_str(), it.reversed() ? "reverse" : "forward", p);
            bool lvalue = s.draw(4) != 0;
            std::visit([&](auto& i) {
                if (lvalue) t.t->erase(i);
                else { auto j = i; t.t->erase(std::move(j)); }
            }, it.v);
            forget(t);
            t.m.erase(t.m.begin() + p);
            if (lvalue) {
                it.pos = it.reversed() ? p - 1 : p;
                check_it_deep(*t.t, it, t.m, "iterator used for erase");
                if (s.draw(2)) keep(t, it);
            }
            after_edit(x, "after erase by iterator");
        } else {
            PSlot& sl = ps[x.i];
            It<P> it = gen_it(*sl.p, sl.m, p);
            ctx.log("%s.erase(%s iterator at %zd) -> new", name(x).c_str(), it.reversed() ? "reverse" : "forward", p);
            P const& c = *sl.p;
            std::optional<P> q;
            std::visit([&](auto const& i) { q.emplace(c.erase(i)); }, it.v);
            check_it(it, sl.m, "iterator used for a persistent erase");
            audit(x, "original after a persistent erase", false);
            Model m = sl.m;
            m.erase(m.begin() + p);
            finish_p(std::move(*q), std::move(m), "after persistent erase by iterator");
        }
    }

    void op_asg_it(bool update) {
        Sel x = pick_target();
        if (model(x).empty()) return;
        ssize_t p = static_cast<ssize_t>(s.draw(model(x).size()));
        bool wrong = false;
        auto run = [&](auto& sl, auto& t, auto&& apply) {
            using Tr = std::decay_t<decltype(t)>;
            It<Tr> it = gen_it(t, sl.m, p);
            if (!sl.its.empty() && s.draw(2)) {
                It<Tr> h = sl.its[s.draw(sl.its.size())];
                if (h.pos >= 0 && h.pos < sz(sl.m)) { it = h; p = h.pos; }
            }
            Rep r = gen_replacement(sl.m, static_cast<size_t>(p));
            ctx.log("%s.%s(%s iterator at %zd, (%lld,%lld))%s", name(x).c_str(), update ? "update" : "assign", it.reversed() ? "reverse" : "forward", p, (long long)r.k, (long long)r.v, x.pers ? " -> new" : "");
            std::visit([&](auto& i) { apply(i, r); }, it.v);
            PBT_CHECK(ctx, !wrong, "the updater was not given the element at position %zd", p);
            return std::make_pair(it, r);
        };
        if (!x.pers) {
            TSlot& t = ts[x.i];
            auto [it, r] = run(t, *t.t, [&](auto& i, Rep const& r) {
                if (update) t.t->update(i, Upd{&t.m[static_cast<size_t>(p)], r, &wrong, false});
                else args(r, [&](auto&&... a) { t.t->assign(i, std::forward<decltype(a)>(a)...); });
            });
            t.m[static_cast<size_t>(p)] = r;
            check_it_deep(*t.t, it, t.m, "iterator used for assign/update");
            if (s.draw(2)) keep(t, it);
            after_edit(x, "after assign/update by iterator");
        } else {
            PSlot& sl = ps[x.i];
            P const& c = *sl.p;
            std::optional<P> q;
            auto [it, r] = run(sl, *sl.p, [&](auto& i, Rep const& r) {
                if (update) q.emplace(c.update(i, Upd{&sl.m[static_cast<size_t>(p)], r, &wrong, false}));
                else args(r, [&](auto&&... a) { q.emplace(c.assign(i, std::forward<decltype(a)>(a)...)); });
            });
            check_it(it, sl.m, "iterator used for a persistent assign/update");
            audit(x, "original after a persistent assign/update", false);
            Model m = sl.m;
            m[static_cast<size_t>(p)] = r;
            finish_p(std::move(*q), std::move(m), "after persistent assign/update");
        }
    }

    // one pass of inserts and erases through a single iterator that is never refreshed
    void op_loop() {
        size_t i = s.draw(ts.size());
        TSlot& t = ts[i];
        Sel x{false, i};
        if (t.m.empty()) return op_ins_it();
        ssize_t n = sz(t.m);
        int kind = static_cast<int>(s.draw(4));
        It<T> it = make_it(*t.t, t.m, kind, static_cast<ssize_t>(s.draw(static_cast<uint64_t>(n))), static_cast<int>(s.draw(3)));
        uint32_t len = 1 + s.skewed(40);
        ctx.log("%s: %u inserts/erases/steps through one %s iterator from %zd", name(x).c_str(), len, kind >= REV ? "reverse" : "forward", it.pos);
        forget(t);
        std::visit([&](auto& j) {
            using I = std::decay_t<decltype(j)>;
            for (uint32_t q = 0; q < len; ++q) {
                Src::Scope sc(s);
                int what = static_cast<int>(s.draw(8));
                ssize_t size = sz(t.m);
                if (what <= 1) {
                    // step within bounds
                    if (size == 0) continue;
                    ssize_t lo = I::is_reversed ? -1 : 0, hi = I::is_reversed ? size - 1 : size;
                    ssize_t to = s.range(std::max(lo, it.pos - 6), std::min(hi, it.pos + 6));
                    ssize_t d = to - it.pos;
                    if constexpr (I::is_reversed) d = -d;
                    j += d;
                    it.pos = to;
                } else if (what <= 1 + grow / 2 + 1 && t.m.size() < cap) {
                    size_t p = static_cast<size_t>(I::is_reversed ? it.pos + 1 : it.pos);
                    Rep r = gen_rep();
                    if (!fits(t.m, p, r, false)) {
                        if constexpr (ordered) {
                            bool done = false;
                            for (int64_t d = dups ? 0 : 1; d < 3 && !done && p > 0; ++d) {
                                r.k = kless(0, 1) ? t.m[p - 1].k + d : t.m[p - 1].k - d;
                                if (r.k >= VK::lo && r.k <= VK::hi && fits(t.m, p, r, false)) done = true;
                            }
                            if constexpr (single) r.v = r.k;
                            if (!done) continue;
                        }
                    }
                    bool ok = grows(*t.t, [&] { VK::args2(r, 0, [&](auto&&... a) { t.t->insert(j, std::forward<decltype(a)>(a)...); }); });
                    if (ok) {
                        t.m.insert(t.m.begin() + static_cast<ssize_t>(p), r);
                        it.pos = static_cast<ssize_t>(p);
                    } else {
                        // the iterator used for a rejected insert is not claimed to be usable
                        j = std::get<I>(make_it(*t.t, t.m, kind, it.pos, 0).v);
                    }
                } else {
                    if (it.pos < 0 || it.pos >= size) continue;
                    seen.erased = true;
                    t.t->erase(j);
                    t.m.erase(t.m.begin() + it.pos);
                    if constexpr (I::is_reversed) --it.pos;
                }
                check_it(j, t.m, it.pos, "iterator used for a run of inserts and erases");
            }
        }, it.v);
        check_it_deep(*t.t, it, t.m, "iterator after a run of inserts and erases");
        keep(t, it);
        after_edit(x, "after a run of inserts and erases through one iterator");
    }

    void op_bulk() {
        size_t i = s.draw(ts.size());
        TSlot& t = ts[i];
        Sel x{false, i};
        Rng g{s.draw(1u << 30) * 2654435761ULL + 1};
        bool up = s.draw(8) < static_cast<uint32_t>(grow);
        int how = static_cast<int>(s.draw(6));
        forget(t);
        if (up) {
            size_t room = t.m.size() < cap ? cap - t.m.size() : 0;
            if (!room) return;
            size_t n = 1 + s.skewed(static_cast<uint32_t>(std::min<size_t>(room, 3000)));
            ctx.log("%s: bulk insert of %zu, pattern %d", name(x).c_str(), n, how);
            size_t start = t.m.empty() ? 0 : static_cast<size_t>(g.below(t.m.size() + 1));
            int64_t k0 = 0;
            if constexpr (ordered) k0 = clampk(kadd + kmul * static_cast<int64_t>(g.below(static_cast<uint64_t>(key_range))));
            for (size_t q = 0; q < n; ++q) {
                Rep r = rng_rep(g);
                size_t p;
                if constexpr (ordered) {
                    if (how == 1) r.k = clampk(k0 + static_cast<int64_t>(q));
                    else if (how == 2) r.k = clampk(k0 - static_cast<int64_t>(q));
                    else if (how == 3) r.k = clampk(k0 + static_cast<int64_t>(g.below(8)));
                    if constexpr (single) r.v = r.k;
                    size_t a = lb(t.m, r.k), b = ub(t.m, r.k);
                    if (a != b && !dups) continue;
                    p = b;
                } else {
                    switch (how) {
                        case 0: case 4: p = static_cast<size_t>(g.below(t.m.size() + 1)); break;
                        case 1: p = t.m.size(); break;
                        case 2: p = 0; break;
                        case 3: p = std::min(start, t.m.size()); break;
                        default: p = std::min(start + q, t.m.size()); break;
                    }
                }
                bool ok = grows(*t.t, [&] {
                    if (p == t.m.size() && how == 1) { VK::args2(r, 0, [&](auto&&... a) { t.t->emplace_back(std::forward<decltype(a)>(a)...); }); return; }
                    if (p == 0 && how == 2) { VK::args2(r, 0, [&](auto&&... a) { t.t->emplace_front(std::forward<decltype(a)>(a)...); }); return; }
                    if constexpr (indexed) {
                        VK::args2(r, 0, [&](auto&&... a) { t.t->insert_index(static_cast<typename C::Size>(p), std::forward<decltype(a)>(a)...); });
                    } else if constexpr (ordered) {
                        auto it = t.t->upper_bound(VK::key(r.k));
                        VK::args2(r, 0, [&](auto&&... a) { t.t->insert(it, std::forward<decltype(a)>(a)...); });
                    } else {
                        auto it = p * 2 < t.m.size() || t.m.empty() ? t.t->begin() : t.t->end();
                        if (!t.m.empty() && p * 2 < t.m.size()) it += static_cast<ssize_t>(p);
                        else if (!t.m.empty()) it -= static_cast<ssize_t>(t.m.size() - p);
                        VK::args2(r, 0, [&](auto&&... a) { t.t->insert(it, std::forward<decltype(a)>(a)...); });
                    }
                });
                if (!ok) break;
                t.m.insert(t.m.begin() + static_cast<ssize_t>(p), r);
            }
        } else {
            if (t.m.empty()) return;
            size_t n = s.draw(4) == 0 ? t.m.size() : 1 + s.skewed(static_cast<uint32_t>(t.m.size()));
            ctx.log("%s: bulk erase of %zu, pattern %d", name(x).c_str(), n, how);
            seen.erased = true;
            size_t start = static_cast<size_t>(g.below(t.m.size()));
            for (size_t q = 0; q < n && !t.m.empty(); ++q) {
                size_t p;
                switch (how) {
                    case 0: p = static_cast<size_t>(g.below(t.m.size())); break;
                    case 1: p = t.m.size() - 1; break;
                    case 2: p = 0; break;
                    case 3: p = std::min(start, t.m.size() - 1); break;
                    case 4: p = t.m.size() / 2; break;
                    default: p = (start + q * 3) % t.m.size(); break;
                }
                Rep want = t.m[p];
                if (how == 1) {
                    Value v = t.t->pop_back();
                    PBT_CHECK(ctx, VK::rep(v) == want, "pop_back returned the wrong element");
                } else if (how == 2) {
                    Value v = t.t->pop_front();
                    PBT_CHECK(ctx, VK::rep(v) == want, "pop_front returned the wrong element");
                } else if constexpr (indexed) {
                    t.t->erase_index(static_cast<typename C::Size>(p));
                } else {
                    auto it = p * 2 < t.m.size() ? t.t->begin() + static_cast<ssize_t>(p) : t.t->end() - static_cast<ssize_t>(t.m.size() - p);
                    t.t->erase(it);
                }
                t.m.erase(t.m.begin() + static_cast<ssize_t>(p));
            }
        }
        after_edit(x, "after bulk edit");
    }

    void op_clear() {
        size_t i = s.draw(ts.size());
        TSlot& t = ts[i];
        ctx.log("%s.clear()", name({false, i}).c_str());
        t.t->clear();
        t.m.clear();
        forget(t);
        after_edit({false, i}, "after clear");
        audit_all("after clear");
    }

    // an iterator of a transient is unaffected when the tree is made persistent (by copy)
    void op_conv() {
        switch (s.draw(5)) {
            case 0: case 1: {
                size_t i = s.draw(ts.size());
                ctx.log("%s.persistent() -> P", name({false, i}).c_str());
                T const& c = *ts[i].t;
                P p = c.persistent();
                Model m = ts[i].m;
                PSlot& n = store(std::move(p), std::move(m));
                audit({true, static_cast<size_t>(&n - ps.data())}, "after persistent()");
                audit({false, i}, "original after persistent()", false);
                if (s.draw(2)) track_p(n);
                break;
            }
            case 2: {
                size_t i = s.draw(ts.size());
                ctx.log("move(%s).persistent() -> P", name({false, i}).c_str());
                TSlot& t = ts[i];
                P p = std::move(*t.t).persistent();
                Model m = std::move(t.m);
                t = TSlot();
                PSlot& n = store(std::move(p), std::move(m));
                audit({true, static_cast<size_t>(&n - ps.data())}, "after persistent() &&");
                break;
            }
            case 3: {
                if (ps.empty()) return;
                size_t j = s.draw(ps.size());
                size_t i = s.draw(ts.size());
                ctx.log("T%zu = %s.transient()", i, name({true, j}).c_str());
                P const& c = *ps[j].p;
                TSlot n;
                n.t = std::make_unique<T>(c.transient());
                n.m = ps[j].m;
                ts[i] = std::move(n);
                audit({false, i}, "after transient()");
                break;
            }
            default: {
                if (ps.empty()) return;
                size_t j = s.draw(ps.size());
                size_t i = s.draw(ts.size());
                ctx.log("T%zu = move(%s).transient()", i, name({true, j}).c_str());
                TSlot n;
                n.t = std::make_unique<T>(std::move(*ps[j].p).transient());
                n.m = std::move(ps[j].m);
                ps.erase(ps.begin() + static_cast<ssize_t>(j));
                ts[i] = std::move(n);
                audit({false, i}, "after transient() &&");
            }
        }
    }

    void op_copy() {
        size_t i = s.draw(ts.size()), j = s.draw(ts.size());
        switch (s.draw(10)) {
            case 0: {
                ctx.log("T%zu = copy of %s", j, name({false, i}).c_str());
                T const& c = *ts[i].t;
                TSlot n;
                n.t = std::make_unique<T>(c);
                n.m = ts[i].m;
                if (i == j) break;
                ts[j] = std::move(n);
                audit({false, j}, "after copy construction");
                break;
            }
            case 1: {
                ctx.log("T%zu = T%zu (assignment)", j, i);
                *ts[j].t = *ts[i].t;
                if (i != j) {
                    ts[j].m = ts[i].m;
                    forget(ts[j]);
                }
                audit({false, j}, i == j ? "after self assignment" : "after copy assignment");
                break;
            }
            case 2: {
                if (i == j) return;
                ctx.log("T%zu = move(T%zu) (assignment)", j, i);
                *ts[j].t = std::move(*ts[i].t);
                ts[j].m = std::move(ts[i].m);
                forget(ts[j]);
                ts[i] = TSlot();
                audit({false, j}, "after move assignment");
                break;
            }
            case 3: {
                ctx.log("T%zu moved into a new object", i);
                TSlot n;
                n.t = std::make_unique<T>(std::move(*ts[i].t));
                n.m = std::move(ts[i].m);
                ts[i] = std::move(n);
                audit({false, i}, "after move construction");
                break;
            }
            case 4: {
                ctx.log("non-const copy of T%zu replaces T%zu", i, j);
                TSlot n;
                n.t = std::make_unique<T>(*ts[i].t);
                n.m = ts[i].m;
                if (i == j) break;
                ts[j] = std::move(n);
                audit({false, j}, "after copy construction from a non-const tree");
                break;
            }
            case 5: {
                if (ps.empty()) return;
                size_t a = s.draw(ps.size());
                ctx.log("copy of P%zu", a);
                P const& c = *ps[a].p;
                P q(c);
                Model m = ps[a].m;
                PSlot& n = store(std::move(q), std::move(m));
                audit({true, static_cast<size_t>(&n - ps.data())}, "after copying a persistent tree");
                break;
            }
            case 6: {
                if (ps.empty()) return;
                size_t a = s.draw(ps.size()), b = s.draw(ps.size());
                ctx.log("P%zu = P%zu (assignment)", b, a);
                P const& c = *ps[a].p;
                *ps[b].p = c;
                if (a != b) {
                    ps[b].m = ps[a].m;
                    ps[b].its.clear();
                }
                audit({true, b}, "after assigning a persistent tree");
                break;
            }
            case 7: {
                if (ps.size() < 2) return;
                size_t a = s.draw(ps.size()), b = s.draw(ps.size());
                if (a == b) return;
                ctx.log("P%zu = move(P%zu)", b, a);
                *ps[b].p = std::move(*ps[a].p);
                ps[b].m = std::move(ps[a].m);
                ps[b].its.clear();
                audit({true, b}, "after move-assigning a persistent tree");
                ps.erase(ps.begin() + static_cast<ssize_t>(a));
                break;
            }
            case 8: {
                if (ps.empty()) return;
                size_t a = s.draw(ps.size());
                ctx.log("P%zu moved into a new object", a);
                PSlot n;
                n.p = std::make_unique<P>(std::move(*ps[a].p));
                n.m = std::move(ps[a].m);
                ps[a] = std::move(n);
                audit({true, a}, "after moving a persistent tree");
                break;
            }
            default: {
                ctx.log("swap(T%zu, T%zu)", i, j);
                if (i == j) return;
                std::swap(*ts[i].t, *ts[j].t);
                std::swap(ts[i].m, ts[j].m);
                forget(ts[i]);
                forget(ts[j]);
                audit({false, i}, "after swap");
                audit({false, j}, "after swap");
            }
        }
        check_misuse();
    }

    void op_drop() {
        if (ps.empty() || s.draw(3) == 0) {
            size_t i = s.draw(ts.size());
            ctx.log("drop %s", name({false, i}).c_str());
            ts[i] = TSlot();
        } else {
            size_t j = s.draw(ps.size());
            ctx.log("drop %s", name({true, j}).c_str());
            ps.erase(ps.begin() + static_cast<ssize_t>(j));
        }
        if (prof.all_slots) audit_all("another tree after one was destroyed");
    }

    void track_p(PSlot& p) {
        if (p.its.size() >= 6) return;
        ssize_t pos = s.range(-1, sz(p.m));
        p.its.push_back(gen_it(*p.p, p.m, pos));
    }
    void op_track() {
        Sel x = pick_target();
        if (x.pers) { track_p(ps[x.i]); ctx.log("track an iterator of %s", name(x).c_str()); return; }
        TSlot& t = ts[x.i];
        if (t.its.size() >= 6) t.its.erase(t.its.begin());
        ssize_t pos = s.range(-1, sz(t.m));
        t.its.push_back(gen_it(*t.t, t.m, pos));
        ctx.log("track a %s iterator of %s at %zd", t.its.back().reversed() ? "reverse" : "forward", name(x).c_str(), pos);
    }
    template <typename Slot>
    void step(Slot& sl) {
        if (sl.its.empty() || sl.m.empty()) return;
        auto& it = sl.its[s.draw(sl.its.size())];
        ssize_t n = sz(sl.m);
        std::visit([&](auto& i) {
            using I = std::decay_t<decltype(i)>;
            ssize_t to = I::is_reversed ? s.range(-1, n - 1) : s.range(0, n);
            ssize_t d = I::is_reversed ? it.pos - to : to - it.pos;
            ctx.log("step tracked %s iterator from %zd to %zd", I::is_reversed ? "reverse" : "forward", it.pos, to);
            if (d == 1) { if (s.draw(2)) ++i; else i++; }
            else if (d == -1) { if (s.draw(2)) --i; else i--; }
            else if (s.draw(2)) i += d;
            else i -= -d;
            it.pos = to;
            check_it(i, sl.m, to, "held iterator after a step");
        }, it.v);
    }
    void op_step() {
        Sel x = pick_target();
        if (x.pers) step(ps[x.i]); else step(ts[x.i]);
    }

    // -------------------------------------------------------------------------------------------------- by index
    void op_idx(Op what) {
        if constexpr (indexed) {
            using Sz = typename C::Size;
            Sel x = pick_target();
            Model const& m0 = model(x);
            size_t p;
            Rep r;
            bool wrong = false;
            if (what == IDX_INS) {
                if (m0.size() >= cap) what = IDX_ERA;
                else if (!gen_insertion(m0, p, r)) return;
            }
            if (what != IDX_INS) {
                if (m0.empty()) return;
                p = s.draw(m0.size());
                if (what != IDX_ERA) r = gen_replacement(m0, p);
            }
            if (what == IDX_ERA) seen.erased = true;
            ctx.log("%s.%s(%zu, (%lld,%lld))%s", name(x).c_str(), op_name(what), p, (long long)r.k, (long long)r.v, x.pers ? " -> new" : "");
            auto change = [&](Model& m) {
                if (what == IDX_INS) m.insert(m.begin() + static_cast<ssize_t>(p), r);
                else if (what == IDX_ERA) m.erase(m.begin() + static_cast<ssize_t>(p));
                else m[p] = r;
            };
            Sz ix = static_cast<Sz>(p);
            if (!x.pers) {
                TSlot& t = ts[x.i];
                bool ok = true;
                switch (what) {
                    case IDX_INS: ok = grows(*t.t, [&] { args(r, [&](auto&&... a) { t.t->insert_index(ix, std::forward<decltype(a)>(a)...); }); }); break;
                    case IDX_ERA: t.t->erase_index(ix); break;
                    case IDX_ASG: args(r, [&](auto&&... a) { t.t->assign_index(ix, std::forward<decltype(a)>(a)...); }); break;
                    default: t.t->update_index(ix, Upd{&t.m[p], r, &wrong, false});
                }
                PBT_CHECK(ctx, !wrong, "update_index gave the updater an element that is not at that index");
                if (what == IDX_INS || what == IDX_ERA) forget(t);
                if (ok) change(t.m);
                after_edit(x, "after edit by index");
            } else {
                PSlot& sl = ps[x.i];
                P const& c = *sl.p;
                std::optional<P> q;
                bool ok = true;
                switch (what) {
                    case IDX_INS: ok = grows(*sl.p, [&] { args(r, [&](auto&&... a) { q.emplace(c.insert_index(ix, std::forward<decltype(a)>(a)...)); }); }); break;
                    case IDX_ERA: q.emplace(c.erase_index(ix)); break;
                    case IDX_ASG: args(r, [&](auto&&... a) { q.emplace(c.assign_index(ix, std::forward<decltype(a)>(a)...)); }); break;
                    default: q.emplace(c.update_index(ix, Upd{&sl.m[p], r, &wrong, false}));
                }
                PBT_CHECK(ctx, !wrong, "update_index gave the updater an element that is not at that index");
                audit(x, "original after a persistent edit by index", false);
                if (ok) {
                    Model m = sl.m;
                    change(m);
                    finish_p(std::move(*q), std::move(m), "after persistent edit by index");
                }
            }
        } else {
            (void)what;
            op_ins_it();
        }
    }

    // ---------------------------------------------------------------------------------------------------- by key
    // which of several elements with equal keys was affected is not specified: find a candidate that explains the result
    template <typename Tr, typename F>
    void resolve(Tr& t, Model& m, size_t a, size_t b, F&& change, char const* what) {
        if (b - a <= 1) {
            change(m, a);
            return;
        }
        // size of the tree is known to be right or wrong from check_content later
        std::vector<Rep> actual;
        for (auto it = t.cbegin(), e = t.cend(); it != e; ++it) actual.push_back(VK::rep(*it));
        for (size_t c = a; c < b; ++c) {
            Model x = m;
            change(x, c);
            if (x == actual) { m = std::move(x); return; }
        }
        ctx.fail("%s: the result is explained by no element with that key", what);
    }

    void op_ord(Op what) {
        if constexpr (ordered) {
            Sel x = pick_target();
            Model const& m0 = model(x);
            Rep r = gen_rep();
            bool present_wanted = what == ORD_ASG || what == ORD_ERA || what == ORD_UPD;
            if (present_wanted || (!m0.empty() && s.draw(3) == 0)) {
                if (m0.empty()) return;
                r.k = m0[s.draw(m0.size())].k;
                if constexpr (single) r.v = r.k;
            }
            size_t a = lb(m0, r.k), b = ub(m0, r.k);
            bool present = a != b;
            if (!present && m0.size() >= cap) return op_pop();
            ctx.log("%s.%s(%lld,%lld) [%s]%s", name(x).c_str(), op_name(what), (long long)r.k, (long long)r.v, present ? "key present" : "key absent", x.pers ? " -> new" : "");
            std::vector<int64_t> cand;
            for (size_t i = a; i < b; ++i) cand.push_back(single ? m0[i].k : m0[i].v);
            bool wrong = false;
            int64_t got = 0;
            if (what == ORD_ERA) seen.erased = true;
            auto change = [&](Model& m, size_t c) {
                switch (what) {
                    case ORD_INSV: if (!present) m.insert(m.begin() + static_cast<ssize_t>(a), r); break;
                    case ORD_IOA: if (!present) m.insert(m.begin() + static_cast<ssize_t>(a), r); else m[c] = r; break;
                    case ORD_ERA: m.erase(m.begin() + static_cast<ssize_t>(c)); break;
                    default: m[c] = r;
                }
            };
            Key key = VK::key(r.k);
            bool structural = what == ORD_ERA || ((what == ORD_INSV || what == ORD_IOA) && !present);
            auto apply_t = [&](T& t) {
                switch (what) {
                    case ORD_INSV: args(r, [&](auto&&... v) { t.insert_v(std::forward<decltype(v)>(v)...); }); break;
                    case ORD_IOA: args(r, [&](auto&&... v) { t.insert_or_assign(std::forward<decltype(v)>(v)...); }); break;
                    case ORD_ASG: args(r, [&](auto&&... v) { t.assign_v(std::forward<decltype(v)>(v)...); }); break;
                    case ORD_ERA: t.erase_key(key); break;
                    default: if constexpr (C::upd_key) t.update_key(key, UpdM{0, &cand, r, &wrong, false, &got}); break;
                }
            };
            if (!x.pers) {
                TSlot& t = ts[x.i];
                bool ok = grows(*t.t, [&] { apply_t(*t.t); });
                PBT_CHECK(ctx, !wrong, "update_key(%lld) gave the updater %lld, which no element with that key has", (long long)r.k, (long long)got);
                if (structural) forget(t);
                if (ok) resolve(*t.t, t.m, a, b, change, op_name(what));
                after_edit(x, "after edit by key");
            } else {
                PSlot& sl = ps[x.i];
                P const& c = *sl.p;
                std::optional<P> q;
                bool ok = grows(*sl.p, [&] {
                    switch (what) {
                        case ORD_INSV: args(r, [&](auto&&... v) { q.emplace(c.insert_v(std::forward<decltype(v)>(v)...)); }); break;
                        case ORD_IOA: args(r, [&](auto&&... v) { q.emplace(c.insert_or_assign(std::forward<decltype(v)>(v)...)); }); break;
                        case ORD_ASG: args(r, [&](auto&&... v) { q.emplace(c.assign_v(std::forward<decltype(v)>(v)...)); }); break;
                        case ORD_ERA: q.emplace(c.erase_key(key)); break;
                        default: if constexpr (C::upd_key) q.emplace(c.update_key(key, UpdM{0, &cand, r, &wrong, false, &got})); break;
                    }
                });
                PBT_CHECK(ctx, !wrong, "update_key(%lld) gave the updater %lld, which no element with that key has", (long long)r.k, (long long)got);
                audit(x, "original after a persistent edit by key", false);
                if (ok) {
                    Model m = sl.m;
                    resolve(*q, m, a, b, change, op_name(what));
                    finish_p(std::move(*q), std::move(m), "after persistent edit by key");
                }
            }
        } else {
            (void)what;
            op_ins_it();
        }
    }

#include "machine_special.hpp"

    void op_query() {
        Sel x = pick_target();
        unsigned which = s.draw(4) == 0 ? static_cast<unsigned>(QALL) : prof.queries;
        if (x.pers) probe(*ps[x.i].p, ps[x.i].m, which); else probe(*ts[x.i].t, ts[x.i].m, which);
    }

    // where in [lo, hi] the drawn integers from a to b are mapped to
    static void place(uint32_t how, int64_t lo, int64_t hi, int64_t a, int64_t b, bool nonneg, int64_t& mul, int64_t& add) {
        if (nonneg) lo = 0;
        int64_t const width = b - a + 1;
        if (lo > a || hi < b || hi / 8 <= width) return;        // no room
        switch (how) {
            case 2:         // over all of the range
                mul = lo < 0 ? hi / width * 2 : hi / width;
                if (mul > hi / width && hi > INT64_MAX / 4) mul = hi / width;
                add = lo < 0 ? -(mul * (a + width / 2)) : -(mul * a);
                while (add + mul * a < lo || add + mul * b > hi) { mul -= mul / 8 + 1; add = lo < 0 ? -(mul * (a + width / 2)) : -(mul * a); }
                break;
            case 3: add = hi - b; break;                         // at the upper end
            case 4:                                              // at the lower end, or about zero
                if (lo < 0 && lo > INT64_MIN / 2 + b) add = lo - a;
                else if (lo < 0) add = -(width / 2) - a;
                break;
            default: break;
        }
    }

    // sums up to here are exact
    static constexpr uint64_t sum_limit() {
        using S = typename C::Sum;
        if constexpr (std::is_floating_point_v<S>) return 1ULL << 50;
        else if constexpr (std::is_integral_v<S>) return std::min<uint64_t>(std::numeric_limits<S>::max(), INT64_MAX);
        else return INT64_MAX;
    }
    void setup() {
        static constexpr int64_t ranges[] = {3, 8, 40, 300, 5000, 1000000};
        key_range = std::min(ranges[s.draw(6)], VK::hi);
        bool neg = VK::vmin < 0 && !prof.nonneg && s.draw(3) != 0;
        switch (s.draw(3)) {
            case 0: vlo = neg ? -3 : 0; vhi = 3; break;
            case 1: vlo = neg ? -50 : 0; vhi = 50; break;
            default: vlo = neg ? -1000 : 0; vhi = 1000; break;
        }
        vlo = std::max<int64_t>(vlo, VK::vmin);
        vhi = std::min<int64_t>(vhi, VK::vmax);
        // sums of all elements, with room for a few more, do not overflow
        constexpr int64_t fits_sum = summed ? static_cast<int64_t>(sum_limit() / (4 * std::max<uint64_t>(C::soft_cap, C::base_grow))) : INT64_MAX;
        bool const ksum = summed && (single || C::sum_of(Rep{1, 0}) != C::sum_of(Rep{0, 0}));      // keys are summed
        place(s.draw(5), ksum ? std::max(-fits_sum, VK::lo) : VK::lo, ksum ? std::min(fits_sum, VK::hi) : VK::hi, 0, key_range, prof.nonneg && ksum, kmul, kadd);
        place(s.draw(5), std::max(-fits_sum, VK::vmin), std::min(fits_sum, VK::vmax), vlo, vhi, prof.nonneg, vmul, vadd);
        if (kmul != 1 || kadd != 0) ctx.label("cases with keys far apart or far from zero");
        if (vmul != 1 || vadd != 0) ctx.label("cases with values far apart or far from zero");
        dups = ordered && s.draw(2);
        static constexpr size_t caps[] = {12, 40, 40, 120, 120, 400, C::soft_cap};
        cap = std::min<size_t>(caps[s.draw(7)], C::soft_cap);
        size_t nt = 1 + s.draw(3);
        ts.resize(nt);
        for (size_t o = 0; o < OP_COUNT; ++o) {
            weights[o] = prof.w[o];
            // swarm testing: leave some operations out of some histories
            if (s.draw(6) == 5 && o != BULK) weights[o] = 0;
        }
        if (!indexed) for (size_t o = IDX_INS; o <= IDX_UPD; ++o) weights[o] = 0;
        if (!ordered) for (size_t o = ORD_INSV; o <= ORD_UPD; ++o) weights[o] = 0;
        if (!C::upd_key) weights[ORD_UPD] = 0;
        if (!has_group(G_PROXY)) weights[PROXY] = 0;
        if (!has_group(G_ALGO) || !(indexed && single && VK::arith && !ordered)) weights[ALGO] = 0;
        if (!has_group(G_REJ)) weights[REJ] = 0;
        if (!has_group(G_ALIAS)) weights[ALIAS] = 0;
        grow = 2 + static_cast<int>(s.draw(5));
        ctx.log("configuration %s; keys %lld + %lld * 0..%lld, values %lld + %lld * %lld..%lld, duplicates %d, at most %zu elements", C::name,
                (long long)kadd, (long long)kmul, (long long)key_range, (long long)vadd, (long long)vmul, (long long)vlo, (long long)vhi, dups, cap);
    }

    // Nodes that split in halves and get no further insertions keep few children, and nodes are not merged when elements are
    // erased: a way to deep trees of few elements.  This place for the n-th insertion adds a level whenever the
    // number of elements doubles: it stays in the right halves of the nodes that were split, but off the right edge of the tree.
    static size_t deep_place(size_t n) {
        size_t top = 1;
        while (top * 2 <= n + 1) top *= 2;
        return top < 4 ? 0 : n - top / 4 * 3;
    }
    struct Base {
        std::unique_ptr<P> p;
        Model m;
    };
    static Base grow_base(uint64_t seed) {
        Base b;
        Rng g{seed};
        T t;
        std::vector<size_t> order, rank(C::base_grow);
        for (size_t n = 0; n < C::base_grow; ++n) order.insert(order.begin() + static_cast<ssize_t>(C::base_deep ? deep_place(n) : n), n);
        for (size_t i = 0; i < order.size(); ++i) rank[order[i]] = i;
        for (size_t n = 0; n < C::base_grow; ++n) {
            size_t p = C::base_deep ? deep_place(n) : n;
            Rep r;
            if constexpr (ordered) r.k = static_cast<int64_t>(rank[n]) * (std::min<int64_t>(VK::hi, 1000000) / static_cast<int64_t>(C::base_grow + 2));
            r.v = static_cast<int64_t>(g.below(100));
            if constexpr (single) { if (ordered) r.v = r.k; else r.k = r.v; }
            VK::args2(r, 0, [&](auto&&... a) { t.insert_index(static_cast<typename C::Size>(p), std::forward<decltype(a)>(a)...); });
            b.m.insert(b.m.begin() + static_cast<ssize_t>(p), r);
        }
        while (b.m.size() > C::base_keep) {
            size_t p = g.below(b.m.size());
            t.erase_index(static_cast<typename C::Size>(p));
            b.m.erase(b.m.begin() + static_cast<ssize_t>(p));
        }
        b.p = std::make_unique<P>(std::move(t).persistent());
        return b;
    }
    static Base const& shared_base() {
        static Base const* b = new Base(grow_base(1));
        return *b;
    }
    void start_from_base() {
        cap = C::soft_cap;
        key_range = std::min<int64_t>(VK::hi, 1000000);
        kmul = 1;
        kadd = 0;
        // some trees do not share their nodes with the base
        if (s.draw(8) == 7) {
            Base b = grow_base(2 + s.draw(1000));
            ts[0].t = std::make_unique<T>(std::move(*b.p).transient());
            ts[0].m = std::move(b.m);
        } else {
            Base const& b = shared_base();
            ts[0].t = std::make_unique<T>(b.p->transient());
            ts[0].m = b.m;
            if (s.draw(2)) {
                PSlot n;
                n.p = std::make_unique<P>(*b.p);
                n.m = b.m;
                ps.push_back(std::move(n));
            }
        }
        ctx.log("T0 has %zu elements and depth %zu", ts[0].m.size(), static_cast<size_t>(ts[0].t->depth()));
        check_content(*ts[0].t, ts[0].m, "a tree that was grown and thinned out");
    }

    void run() {
        setup();
        uint32_t steps = std::min(C::max_steps, 4 + s.skewed(140) + s.draw(20));
        s.set_steps(steps);
        if constexpr (C::base_grow != 0) {
            Src::Scope sc(s);
            start_from_base();
        } else if (s.draw(4) != 0) {
            // usually start from a tree that is not empty
            Src::Scope sc(s);
            int g = grow;
            grow = 8;
            op_bulk();
            grow = g;
        }
        loop();
        audit_all("at the end");
        for (int i = 0; i < 6; ++i) op_query();
    }

    template <typename F = void (*)()>
    void loop(F&& between = [] {}) {
        while (s.more()) {
            Src::Scope sc(s);
            if (s.draw(24) == 23) grow = 1 + static_cast<int>(s.draw(7));
            size_t o = s.weighted(weights, OP_COUNT);
            ++ctx.ops;
            ctx.labels[op_name(o)]++;
            switch (o) {
                case PUSH: op_push(); break;
                case POP: op_pop(); break;
                case INS_IT: op_ins_it(); break;
                case ERA_IT: op_era_it(); break;
                case ASG_IT: op_asg_it(false); break;
                case UPD_IT: op_asg_it(true); break;
                case BULK: op_bulk(); break;
                case CLEAR: op_clear(); break;
                case CONV: op_conv(); break;
                case COPY: op_copy(); break;
                case TRACK: op_track(); break;
                case STEP: op_step(); break;
                case LOOP: op_loop(); break;
                case IDX_INS: case IDX_ERA: case IDX_ASG: case IDX_UPD: op_idx(static_cast<Op>(o)); break;
                case ORD_INSV: case ORD_IOA: case ORD_ASG: case ORD_ERA: case ORD_UPD: op_ord(static_cast<Op>(o)); break;
                case PROXY: if constexpr (has_group(G_PROXY)) op_proxy(); break;
                case ALGO: if constexpr (has_group(G_ALGO)) op_algo(); break;
                case REJ: if constexpr (has_group(G_REJ)) op_reject(); break;
                case ALIAS: if constexpr (has_group(G_ALIAS)) op_alias(); break;
                case QUERY: op_query(); break;
                case DROP: op_drop(); break;
                default: break;
            }
            check_misuse();
            between();
        }
    }

    static void unit(Src& s, Ctx& ctx) {
        Profile const& prof = profile_for(ctx.check);
        Tracked::misuse = nullptr;
        if (std::is_same_v<VK, KPtr>) for (int i = 0; i < 8; ++i) (void)VK::key(100001);     // the ring of key objects grows once
        if constexpr (C::base_grow != 0) (void)shared_base();
        int64_t tracked0 = Tracked::live;
        MemStats before = mem_stats();
        {
            Machine m(s, ctx);
            m.run();
            m.ts.clear();
            m.ps.clear();
            m.check_misuse();
            if constexpr (C::base_grow != 0) m.check_content(*shared_base().p, shared_base().m, "a persistent tree shared by all histories");
            // by the rule of the check
            Seen const& q = m.seen;
            ctx.nontrivial = q.multi_level && q.queried && (q.erased || q.shared_edit) && (q.special || !needs_special(ctx.check));
            if (q.multi_level) ctx.label("cases with a tree of depth > 1");
            if (q.shared_edit) ctx.label("cases with an edit of a persistent tree");
        }
        if (prof.leaks) {
            PBT_CHECK(ctx, Tracked::live == tracked0, "%lld elements are still alive after all trees were destroyed", static_cast<long long>(Tracked::live - tracked0));
            MemStats after = mem_stats();
            PBT_CHECK(ctx, after.live_blocks == before.live_blocks, "%lld memory blocks (%lld bytes) are still allocated after all trees were destroyed",
                      static_cast<long long>(after.live_blocks - before.live_blocks), static_cast<long long>(after.live_bytes - before.live_bytes));
        }
    }
    static bool needs_special(char const* check) {
        return !strcmp(check, "P12") || !strcmp(check, "P16") || !strcmp(check, "P18");
    }
};

} // namespace pbt
