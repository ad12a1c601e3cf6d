// P14: cost of edits, copies and queries.  Counts allocations (memhook.cpp) and calls of the comparator and extractor
// functors that are template arguments of the tree; never looks inside the tree.
#pragma once

#include <algorithm>
#include <memory>
#include <optional>

#include "bpptree/bpptree.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/max.hpp"
#include "bpptree/min.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/summed.hpp"
#include "values.hpp"

namespace pbt {
using namespace bpptree;

inline uint64_t functor_calls = 0;
// basic blocks executed by code of this translation unit: the headers under test and the thin calls of the harness
extern "C" uint64_t pbt_steps;

struct CountLess {
    template <typename A, typename B>
    bool operator()(A const& a, B const& b) const { ++functor_calls; return a < b; }
};
struct CountGreater {
    template <typename A, typename B>
    bool operator()(A const& a, B const& b) const { ++functor_calls; return b < a; }
};
struct CountSecond {
    template <typename A, typename B>
    int64_t operator()(std::pair<A, B> const& p) const { ++functor_calls; return p.second; }
    template <typename A, typename B>
    int64_t operator()(A const&, B const& b) const { ++functor_calls; return b; }
};
struct CountValue {
    template <typename A>
    int64_t operator()(A const& a) const { ++functor_calls; return static_cast<int64_t>(a); }
};

template <typename C>
struct Cost {
    using T = typename C::Tree::Transient;
    using P = typename C::Tree::Persistent;
    static constexpr bool ordered = C::ordered, indexed = C::indexed, summed = C::summed, minned = C::minned;
    // no node can hold more
    static constexpr uint64_t leaf_cap = C::leaf_bytes / sizeof(typename C::Value);
    static constexpr uint64_t int_cap = C::int_bytes / sizeof(void*);
    static constexpr uint64_t int_key_cap = C::int_bytes / (sizeof(void*) + C::key_bytes);

    Src& s;
    Ctx& ctx;
    std::vector<int64_t> model;      // keys (ordered) or values, only used to generate valid operations

    static uint64_t lg(uint64_t n) {
        uint64_t r = 0;
        while (n > 0) { ++r; n >>= 1; }
        return r;
    }
    // functor calls allowed on one descent by key
    static uint64_t key_bound(uint64_t depth) {
        uint64_t per = C::binary ? std::max(lg(leaf_cap), lg(int_key_cap)) + 2 : std::max(leaf_cap, int_key_cap);
        return 2 * depth * per + 8;
    }
    // functor calls allowed on one descent that may look at every entry of the nodes it passes
    static uint64_t scan_bound(uint64_t depth) { return 4 * depth * std::max(leaf_cap, int_cap) + 16; }
    static uint64_t alloc_bound(uint64_t depth) { return 3 * (depth + 1) + 3; }

    struct Delta { uint64_t allocs, calls; size_t max_block; uint64_t steps; };
    template <typename F>
    Delta measure(F&& f) {
        mem_reset_window();
        uint64_t c0 = functor_calls, s0 = pbt_steps;
        f();
        uint64_t steps = pbt_steps - s0;
        MemStats m = mem_stats();
        return {m.allocs, functor_calls - c0, m.max_block, steps};
    }
    void check_alloc(Delta const& d, uint64_t bound, uint64_t depth, char const* what) {
        check_steps(d, depth, 3, what, 20);
        PBT_CHECK(ctx, d.allocs <= bound, "%s of %zu elements, depth %llu, allocates %llu blocks (bound %llu)", what, model.size(), (unsigned long long)depth, (unsigned long long)d.allocs, (unsigned long long)bound);
        PBT_CHECK(ctx, d.max_block <= std::max(C::leaf_bytes, C::int_bytes), "%s allocates a block of %zu bytes, nodes are limited to %zu and %zu bytes", what, d.max_block, C::leaf_bytes, C::int_bytes);
        ctx.ops++;
    }
    void check_calls(Delta const& d, uint64_t bound, uint64_t depth, char const* what) {
        PBT_CHECK(ctx, d.calls <= bound, "%s on %zu elements, depth %llu, calls comparators and extractors %llu times (bound %llu)", what, model.size(), (unsigned long long)depth, (unsigned long long)d.calls, (unsigned long long)bound);
    }

    // Executed basic blocks, in units of (levels x entries of the largest node): an operation that walks a constant number
    // of paths stays below a constant number of units, however it is written; one that walks the leaves or elements grows
    // with the tree.
    void check_steps(Delta const& d, uint64_t depth, uint64_t paths, char const* what, uint64_t steps_per_unit = 6) {
        uint64_t unit = (depth + 1) * (std::max(leaf_cap, int_cap) + 8);

        PBT_CHECK(ctx, d.steps <= steps_per_unit * unit * paths, "%s on %zu elements, depth %llu, executes %llu basic blocks (bound %llu)", what, model.size(), (unsigned long long)depth, (unsigned long long)d.steps, (unsigned long long)(steps_per_unit * unit * paths));
        ctx.ops++;
    }

    using Value = typename C::Value;

    template <typename Tr>
    void one_query(Tr& t) {
        size_t n = model.size();
        uint64_t d = t.depth();
        auto nothing = [&](Delta const& x, char const* what) {
            PBT_CHECK(ctx, x.allocs == 0, "%s allocates %llu blocks", what, (unsigned long long)x.allocs);
            ctx.ops++;
        };
        Tr const& c = t;
        uint64_t sink = 0;
        int what = static_cast<int>(s.draw(8));
        ctx.label("queries");
        switch (what) {
            case 0: case 1: case 2:
                if constexpr (ordered) {
                    int64_t k = s.draw(2) && n ? model[s.draw(n)] : static_cast<int64_t>(s.draw(1u << 20)) - 1000;
                    auto key = static_cast<typename C::Key>(k);
                    auto lookup = [&](char const* name, auto&& f) {
                        Delta x = measure(f);
                        nothing(x, name);
                        check_calls(x, key_bound(d), d, name);
                        check_steps(x, d, 1, name);
                    };
                    lookup("find", [&] { sink += c.find(key).valid(); });
                    lookup("lower_bound", [&] { sink += c.lower_bound(key).valid(); });
                    lookup("upper_bound", [&] { sink += c.upper_bound(key).valid(); });
                    lookup("contains", [&] { sink += c.contains(key); });
                    lookup("non-const find", [&] { sink += t.find(key).valid(); });
                    break;
                }
                [[fallthrough]];
            case 3:
                if constexpr (indexed) {
                    if (!n) return;
                    size_t p = s.draw(n);
                    Delta x = measure([&] { auto it = c.find_index(p); sink += static_cast<uint64_t>(c.order(it)); sink += it.valid(); });
                    nothing(x, "find_index and order");
                    check_calls(x, scan_bound(d), d, "find_index and order");
                    check_steps(x, d, 2, "find_index and order");
                    x = measure([&] { auto const& v = c.at_index(p); sink += sizeof(v); });
                    nothing(x, "at_index");
                    check_steps(x, d, 1, "at_index");
                    // moving an iterator of an indexed tree costs paths, not the distance
                    auto it = c.begin() + static_cast<ssize_t>(p);
                    size_t q = s.draw(n);
                    ssize_t by = static_cast<ssize_t>(q) - static_cast<ssize_t>(p);
                    x = measure([&] { it += by; });
                    nothing(x, "advancing an iterator");
                    check_steps(x, d, 2, "advancing an iterator of an indexed tree", 3);
                    PBT_CHECK(ctx, it == c.find_index(q), "the iterator moved from %zu by %zd is not at %zu", p, by, q);
                    x = measure([&] { auto a = c.end(); a -= static_cast<ssize_t>(n - q); sink += a.valid(); });
                    check_steps(x, d, 2, "advancing an iterator of an indexed tree back from the end", 3);
                    auto r = t.rbegin();
                    x = measure([&] { r += static_cast<ssize_t>(q); sink += r.valid(); });
                    check_steps(x, d, 2, "advancing a reverse iterator of an indexed tree", 3);
                    auto first = c.begin();
                    x = measure([&] { sink += static_cast<uint64_t>(it - first); sink += it < first; sink += it == first; });
                    check_steps(x, d, 2, "subtracting and comparing iterators of an indexed tree");
                    break;
                }
                [[fallthrough]];
            case 4:
                if constexpr (summed) {
                    if (!n) return;
                    auto it = c.begin() + static_cast<ssize_t>(s.draw(n));
                    Delta x = measure([&] { sink += static_cast<uint64_t>(c.sum_inclusive(it)) + static_cast<uint64_t>(c.sum_exclusive(it)); });
                    nothing(x, "sum_inclusive and sum_exclusive");
                    check_calls(x, scan_bound(d), d, "sum_inclusive and sum_exclusive");
                    check_steps(x, d, 2, "sum_inclusive and sum_exclusive");
                    x = measure([&] { sink += static_cast<uint64_t>(c.sum()); });
                    nothing(x, "sum");
                    check_calls(x, scan_bound(d), d, "sum");
                    check_steps(x, d, 1, "sum");
                    auto target = c.sum() / 3;
                    x = measure([&] { sink += c.sum_lower_bound(target).valid(); });
                    nothing(x, "sum_lower_bound");
                    check_calls(x, scan_bound(d), d, "sum_lower_bound");
                    check_steps(x, d, 1, "sum_lower_bound");
                    break;
                }
                [[fallthrough]];
            case 5:
                if constexpr (minned) {
                    if (!n) return;
                    size_t a = s.draw(n), b = a + 1 + s.draw(n - a);
                    auto i = c.begin() + static_cast<ssize_t>(a);
                    auto j = b == n ? c.end() : c.begin() + static_cast<ssize_t>(b);
                    Delta x = measure([&] { sink += static_cast<uint64_t>(c.min(i, j)); });
                    nothing(x, "min over a range");
                    check_calls(x, scan_bound(d), d, "min over a range");
                    check_steps(x, d, 2, "min over a range");
                    x = measure([&] { sink += c.min_element(i, j).valid(); });
                    nothing(x, "min_element over a range");
                    check_calls(x, 2 * scan_bound(d), d, "min_element over a range");
                    check_steps(x, d, 4, "min_element over a range");
                    x = measure([&] { sink += static_cast<uint64_t>(c.min()); sink += c.min_element().valid(); });
                    nothing(x, "min and min_element");
                    check_calls(x, 2 * scan_bound(d), d, "min and min_element");
                    check_steps(x, d, 2, "min and min_element");
                    break;
                }
                [[fallthrough]];
            default: {
                Delta x = measure([&] {
                    size_t q = 0;
                    for (auto it = c.begin(), e = c.end(); it != e && q < 300; ++it, ++q) sink += sizeof(*it);
                    q = 0;
                    for (auto it = c.rbegin(), e = c.rend(); it != e && q < 300; ++it, ++q) sink += sizeof(*it);
                    if (n) {
                        auto it = t.begin() + static_cast<ssize_t>(n / 2);
                        sink += it.valid() + (it <= t.end());
                        sink += sizeof(t.front()) + sizeof(t.back()) + t.size();
                    }
                });
                nothing(x, "iteration");
                if (n) {
                    x = measure([&] { auto i = c.begin(); auto j = c.end(); --j; ++i; sink += i <= j; sink += sizeof(c.front()) + sizeof(c.back()) + c.size() + c.empty(); });
                    check_steps(x, d, 4, "begin, end, front, back, size and single steps");
                }
            }
        }
        if (sink == 0x123456789abcdefULL) ctx.log("unlikely");
    }

    static Value make(int64_t k) {
        if constexpr (C::pair) return Value(static_cast<typename C::Key>(k), 1);
        else return static_cast<Value>(k);
    }

    // the position at which key k (ordered) may be inserted, or a random one
    size_t place(int64_t& k, int pattern) {
        if constexpr (ordered) {
            (void)pattern;
            return static_cast<size_t>(std::lower_bound(model.begin(), model.end(), k) - model.begin());
        } else {
            k &= 0xff;
            switch (pattern) {
                case 0: return model.size();
                case 1: return 0;
                default: return s.draw(model.size() + 1);
            }
        }
    }

    // one edit: transient trees are changed in place, persistent ones give a new tree.  In every case `edits` gets the
    // cost, `in_place` says that no new element or position was created.
    enum Kind { INSERT, ERASE, ASSIGN };
    template <typename F>
    Delta edit(T& t, Kind kind, size_t p, int64_t k, F&&) {
        Value const v = make(k);
        int how = static_cast<int>(s.draw(3));
        if constexpr (ordered) {
            auto key = static_cast<typename C::Key>(k);
            if (how == 0) switch (kind) {
                case INSERT: return measure([&] { if (k & 1) t.insert_v(v); else t.insert_or_assign(v); });
                case ERASE: return measure([&] { t.erase_key(key); });
                default: return measure([&] { if (k & 1) t.assign_v(v); else t.insert_or_assign(v); });
            }
        }
        if constexpr (indexed) {
            if (how == 1) switch (kind) {
                case INSERT: return measure([&] { t.insert_index(p, v); });
                case ERASE: return measure([&] { t.erase_index(p); });
                default: return measure([&] { t.assign_index(p, v); });
            }
        }
        size_t n = model.size();
        auto it = p == n ? t.end() : t.begin() + static_cast<ssize_t>(p);
        switch (kind) {
            case INSERT:
                if (p == n && (k & 1)) return measure([&] { t.push_back(v); });
                return measure([&] { t.insert(it, v); });
            case ERASE:
                if (p + 1 == n && (k & 1)) return measure([&] { t.pop_back(); });
                return measure([&] { t.erase(it); });
            default: return measure([&] { t.assign(it, v); });
        }
    }
    Delta edit_p(std::unique_ptr<P>& cur, Kind kind, size_t p, int64_t k) {
        Value const v = make(k);
        int how = static_cast<int>(s.draw(3));
        std::optional<P> q;
        P const& c = *cur;
        Delta d{};
        bool done = false;
        auto run = [&](auto&& f) { d = measure([&] { q.emplace(f()); }); done = true; };
        if constexpr (ordered) {
            auto key = static_cast<typename C::Key>(k);
            if (how == 0) switch (kind) {
                case INSERT: if (k & 1) run([&] { return c.insert_v(v); }); else run([&] { return c.insert_or_assign(v); }); break;
                case ERASE: run([&] { return c.erase_key(key); }); break;
                default: if (k & 1) run([&] { return c.assign_v(v); }); else run([&] { return c.insert_or_assign(v); });
            }
        }
        if constexpr (indexed) {
            if (!done && how == 1) switch (kind) {
                case INSERT: run([&] { return c.insert_index(p, v); }); break;
                case ERASE: run([&] { return c.erase_index(p); }); break;
                default: run([&] { return c.assign_index(p, v); });
            }
        }
        if (!done) {
            auto it = p == model.size() ? c.end() : c.begin() + static_cast<ssize_t>(p);
            switch (kind) {
                case INSERT: run([&] { return c.insert(it, v); }); break;
                case ERASE: run([&] { return c.erase(it); }); break;
                default: run([&] { return c.assign(it, v); });
            }
        }
        *cur = std::move(*q);
        return d;
    }
    bool gen_edit(Kind& kind, size_t& p, int64_t& k) {
        size_t n = model.size();
        kind = static_cast<Kind>(s.draw(3));
        if (n == 0) kind = INSERT;
        k = static_cast<int64_t>(s.draw(1u << 20));
        if (kind == INSERT) {
            p = place(k, static_cast<int>(s.draw(3)));
            return !(ordered && p < n && model[p] == k);
        }
        p = s.draw(n);
        if (ordered) k = model[p];
        else k &= 0xff;
        return true;
    }
    void apply(Kind kind, size_t p, int64_t k) {
        if (kind == INSERT) model.insert(model.begin() + static_cast<ssize_t>(p), k);
        else if (kind == ERASE) model.erase(model.begin() + static_cast<ssize_t>(p));
        else model[p] = k;
    }
    // shrinking: no erasure adds a level, what is left of a tree of one element is a single node, and each costs what it should
    void drain(P const& from, uint64_t seed) {
        Rng64 g{seed};
        bool const persistent = s.draw(2);
        int const pattern = static_cast<int>(s.draw(4));
        ctx.log("  erase all of %zu elements, %s, pattern %d", model.size(), persistent ? "persistent" : "transient", pattern);
        ctx.label("trees shrunk to nothing");
        P p(from);
        T t(from.transient());
        size_t n = model.size();
        uint64_t const levels = t.depth();
        for (uint32_t i = 0; n > 0; ++i) {
            size_t at = 0;
            switch (pattern) {
                case 0: break;
                case 1: at = n - 1; break;
                case 2: at = g.next() & 1 ? n - 1 : 0; break;
                default: at = indexed ? g.next() % n : std::min<size_t>(g.next() % 8, n - 1); break;
            }
            uint64_t const d = persistent ? p.depth() : t.depth();
            Delta x;
            if (persistent) {
                std::optional<P> q;
                x = measure([&] {
                    if constexpr (indexed) q.emplace(p.erase_index(at));
                    else q.emplace(p.erase(at + 1 == n ? p.end() - 1 : p.begin() + static_cast<ssize_t>(at)));
                });
                p = std::move(*q);
            } else {
                x = measure([&] {
                    if constexpr (indexed) t.erase_index(at);
                    else { auto it = at + 1 == n ? t.end() - 1 : t.begin() + static_cast<ssize_t>(at); t.erase(it); }
                });
            }
            check_alloc(x, alloc_bound(d), d, "an erasure");
            --n;
            uint64_t const after = persistent ? p.depth() : t.depth();
            size_t const size = persistent ? p.size() : t.size();
            PBT_CHECK(ctx, size == n, "size() is %zu after erasing down to %zu", size, n);
            PBT_CHECK(ctx, after <= d, "an erasure took the depth from %llu to %llu", (unsigned long long)d, (unsigned long long)after);
            PBT_CHECK(ctx, n > 1 || after == 1, "a tree of %zu elements that had %llu levels keeps %llu", n, (unsigned long long)levels, (unsigned long long)after);
            ctx.ops++;
        }
        PBT_CHECK(ctx, persistent ? p.empty() : t.empty(), "a tree is not empty after all of its elements were erased");
    }
    static uint64_t edit_calls(uint64_t depth) { return scan_bound(depth) + 2 * key_bound(depth); }

    void run() {
        auto t = std::make_unique<T>();
        static constexpr uint32_t sizes[] = {1, 10, 100, 400, 1500, 5000};
        uint32_t n = 1 + s.draw(sizes[s.draw(6)]);
        n = std::min<uint32_t>(n, C::max_n);
        int pattern = static_cast<int>(s.draw(5));
        Rng64 g{s.draw(1u << 30) * 7919ULL + 3};
        ctx.log("%s: %u elements, pattern %d", C::name, n, pattern);
        // growing only: logarithmic depth, one edit creates at most one node per level and a root
        model.reserve(n + 500);
        size_t cursor = 0;
        uint64_t worst_alloc = 0;
        for (uint32_t i = 0; i < n; ++i) {
            int64_t k;
            size_t p;
            if constexpr (ordered) {
                switch (pattern) {
                    case 0: k = i * 8; break;
                    case 1: k = (static_cast<int64_t>(n) - i) * 8; break;
                    case 2: k = (i & 1 ? static_cast<int64_t>(i) : 2 * static_cast<int64_t>(n) - i) * 4 + 1; break;
                    default: k = static_cast<int64_t>(g.next() % (1u << 20)); break;
                }
                p = static_cast<size_t>(std::lower_bound(model.begin(), model.end(), k) - model.begin());
                if (p < model.size() && model[p] == k) continue;
            } else {
                k = static_cast<int64_t>(g.next() & 0xff);
                switch (pattern) {
                    case 0: p = model.size(); break;
                    case 1: p = 0; break;
                    case 2: p = std::min(cursor, model.size()); cursor = g.next() % 16 ? cursor + 1 : g.next() % (model.size() + 1); break;
                    default: p = g.next() % (model.size() + 1); break;
                }
            }
            uint64_t d = t->depth();
            Value const v = make(k);
            Delta x;
            if (p == model.size()) x = measure([&] { t->push_back(v); });
            else if (p == 0) x = measure([&] { t->push_front(v); });
            else if constexpr (ordered) x = measure([&] { t->insert_v(v); });
            else if constexpr (indexed) x = measure([&] { t->insert_index(p, v); });
            else {
                auto it = p * 2 < model.size() ? t->begin() + static_cast<ssize_t>(p) : t->end() - static_cast<ssize_t>(model.size() - p);
                x = measure([&] { t->insert(it, v); });
            }
            check_alloc(x, d + 2, d, "insertion into an unshared transient tree");
            check_calls(x, edit_calls(d), d, "insertion");
            worst_alloc = std::max(worst_alloc, x.allocs);
            model.insert(model.begin() + static_cast<ssize_t>(p), k);
            if ((i & 63) == 0 || i + 1 == n) {
                // every node but the last of its level is at least half full
                uint64_t bound = 2;
                double left = static_cast<double>(model.size()) / C::min_leaf;
                while (left > 1) { left /= C::min_fan; ++bound; }
                PBT_CHECK(ctx, t->depth() <= bound, "a tree that only grew has depth %zu with %zu elements (bound %llu)", t->depth(), model.size(), (unsigned long long)bound);
            }
        }
        for (int q = 0; q < 3; ++q) one_query(*t);
        // unshared: edits in place copy nothing
        uint32_t rounds = 4 + s.draw(12);
        for (uint32_t r = 0; r < rounds; ++r) {
            Src::Scope sc(s);
            Kind kind;
            size_t p;
            int64_t k;
            if (!gen_edit(kind, p, k)) continue;
            uint64_t d = t->depth();
            if (kind == INSERT && d == t->max_depth()) continue;
            Delta x = edit(*t, kind, p, k, 0);
            // a tree that becomes empty may get a new root
            check_alloc(x, kind == INSERT ? d + 2 : kind == ERASE && model.size() == 1 ? 1 : 0, d, kind == INSERT ? "insertion into an unshared transient tree" : kind == ERASE ? "erasure from an unshared transient tree" : "assignment in an unshared transient tree");
            check_calls(x, edit_calls(d), d, "edit of a transient tree");
            apply(kind, p, k);
        }
        // copies and conversions
        std::unique_ptr<P> p0;
        {
            uint64_t const depth = t->depth();
            auto none = [&](Delta const& x, char const* what) {
                PBT_CHECK(ctx, x.allocs <= 4, "%s of %zu elements allocates %llu blocks", what, model.size(), (unsigned long long)x.allocs);
                PBT_CHECK(ctx, x.calls == 0, "%s of %zu elements calls comparators or extractors", what, model.size());
                ctx.ops++;
            };
            std::optional<P> a, b;
            std::optional<T> ta, tb;
            if (s.draw(4) == 0) {
                none(measure([&] { ta.emplace(*t); }), "copying a transient tree");
                none(measure([&] { *ta = *t; }), "assigning a transient tree");
            }
            none(measure([&] { a.emplace(t->persistent()); }), "persistent()");
            // the first conversion marks the nodes made since the last one; these mark nothing
            auto constant = [&](Delta const& x, char const* what) { none(x, what); check_steps(x, depth, 1, what, 20); };
            constant(measure([&] { b.emplace(*a); }), "copying a persistent tree");
            constant(measure([&] { tb.emplace(a->transient()); }), "transient()");
            constant(measure([&] { *b = *a; }), "assigning a persistent tree");
            constant(measure([&] { b.emplace(std::move(*tb).persistent()); }), "persistent() &&");
            constant(measure([&] { b.emplace(t->persistent()); }), "persistent() once more");
            p0 = std::make_unique<P>(std::move(*b));
            ctx.label("conversions");
        }
        if (p0->depth() > 1) ctx.nontrivial = true;
        std::vector<int64_t> base = model;
        // a transient tree after a snapshot: every edit copies at most its path; the same place is not copied twice
        rounds = 4 + s.draw(16);
        uint64_t total = 0;
        int64_t blocks0 = mem_stats().live_blocks;
        for (uint32_t r = 0; r < rounds; ++r) {
            Src::Scope sc(s);
            Kind kind;
            size_t p;
            int64_t k;
            if (!gen_edit(kind, p, k)) continue;
            uint64_t d = t->depth();
            if (kind == INSERT && d == t->max_depth()) continue;
            ctx.log("  transient edit %d at %zu of %zu after a snapshot", kind, p, model.size());
            Delta x = edit(*t, kind, p, k, 0);
            check_alloc(x, alloc_bound(d), d, "edit of a transient tree after a snapshot");
            check_calls(x, edit_calls(d), d, "edit of a transient tree after a snapshot");
            total += x.allocs;
            apply(kind, p, k);
            if (kind == ASSIGN || kind == INSERT) {
                Delta y = edit(*t, ASSIGN, p, k, 0);
                check_alloc(y, 0, t->depth(), "assignment where the tree has just been edited");
            }
            ctx.label("edits after a snapshot");
        }
        for (int q = 0; q < 3; ++q) one_query(*t);
        // a chain or a fan of persistent edits
        model = base;
        bool fan = s.draw(2);
        std::vector<std::unique_ptr<P>> kept;
        rounds = 4 + s.draw(16);
        for (uint32_t r = 0; r < rounds; ++r) {
            Src::Scope sc(s);
            Kind kind;
            size_t p;
            int64_t k;
            if (!gen_edit(kind, p, k)) continue;
            uint64_t d = p0->depth();
            if (kind == INSERT && d == p0->max_depth()) continue;
            auto cur = std::make_unique<P>(*p0);
            ctx.log("  persistent edit %d at %zu of %zu", kind, p, model.size());
            Delta x = edit_p(cur, kind, p, k);
            check_alloc(x, alloc_bound(d), d, "edit of a persistent tree");
            check_calls(x, edit_calls(d), d, "edit of a persistent tree");
            total += x.allocs;
            if (fan) kept.push_back(std::move(cur));
            else { apply(kind, p, k); kept.push_back(std::move(p0)); p0 = std::move(cur); }
            ctx.label("persistent edits");
        }
        for (int q = 0; q < 3; ++q) one_query(*p0);
        // versions share structure: what is alive is at most what was there and what the edits allocated
        int64_t blocks1 = mem_stats().live_blocks;
        PBT_CHECK(ctx, blocks1 - blocks0 <= static_cast<int64_t>(total) + static_cast<int64_t>(2 * kept.size()) + 8, "the versions hold %lld blocks more than before, their edits allocated %llu", (long long)(blocks1 - blocks0), (unsigned long long)total);
        kept.clear();
        if (s.draw(3) == 0 && model.size() <= 3000) drain(*p0, g.next());
    }
    struct Rng64 {
        uint64_t s;
        uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    };
    static void unit(Src& s, Ctx& ctx) {
        Cost c{s, ctx, {}};
        c.run();
    }
};

} // namespace pbt
