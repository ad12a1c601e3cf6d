// P21: one tree named through a generated sequence of options, one that names the same parameters directly.  Both are
// driven in lockstep; everything a user can observe must agree, and with the parameters that were asked for.
#pragma once

#include <sys/wait.h>
#include <unistd.h>

#include <exception>

#include "cost.hpp"

namespace pbt {

// a conversion to an element that fails
template <typename V>
struct OptBoom {
    operator V() const { throw std::runtime_error("conversion to an element fails"); }
};

template <typename O>
struct Opt {
    using TA = typename O::A::Transient;
    using TB = typename O::B::Transient;
    using PA = typename O::A::Persistent;
    using PB = typename O::B::Persistent;
    enum { MAP, SET, VEC };
    static constexpr bool keyed = O::kind != VEC;
    using Key = int32_t;
    using Value = typename O::Value;

    Src& s;
    Ctx& ctx;
    std::unique_ptr<TA> a = std::make_unique<TA>();
    std::unique_ptr<TB> b = std::make_unique<TB>();
    std::optional<PA> pa;
    std::optional<PB> pb;
    Model m, pm;

    struct Result { uint64_t allocs, calls; size_t max_block; bool threw; };
    template <typename F>
    static Result measure(F&& f) {
        mem_reset_window();
        uint64_t c0 = functor_calls;
        bool threw = false;
        try { f(); } catch (std::logic_error const&) { threw = true; }
        MemStats x = mem_stats();
        return {x.allocs, functor_calls - c0, x.max_block, threw};
    }
    template <typename FA, typename FB>
    bool both(char const* what, FA&& fa, FB&& fb) {
        Result x = measure(fa), y = measure(fb);
        ctx.ops++;
        PBT_CHECK(ctx, x.threw == y.threw, "%s: with the options it is %s, with the same parameters given directly it is %s", what, x.threw ? "rejected" : "done", y.threw ? "rejected" : "done");
        if (!x.threw) {     // the text of an exception is allocated too
            PBT_CHECK(ctx, x.max_block <= static_cast<size_t>(std::max(O::leaf, O::internal)), "%s allocates a block of %zu bytes, the options say nodes of %d and %d bytes", what, x.max_block, O::leaf, O::internal);
            PBT_CHECK(ctx, x.allocs == y.allocs && x.max_block == y.max_block, "%s allocates %llu blocks of at most %zu bytes, with the same parameters given directly %llu of at most %zu", what, (unsigned long long)x.allocs, x.max_block, (unsigned long long)y.allocs, y.max_block);
            PBT_CHECK(ctx, x.calls == y.calls, "%s compares %llu times, with the same parameters given directly %llu times", what, (unsigned long long)x.calls, (unsigned long long)y.calls);
        }
        return !x.threw;
    }

    static Value make(Rep const& r) {
        if constexpr (O::kind == MAP) return Value(static_cast<int32_t>(r.k), static_cast<int32_t>(r.v));
        else return static_cast<int32_t>(r.k);
    }
    static Rep rep(Value const& v) {
        if constexpr (O::kind == MAP) return {v.first, v.second};
        else return {v, v};
    }
    size_t lb(int64_t k) const {
        size_t p = 0;
        while (p < m.size() && O::kless(m[p].k, k)) ++p;
        return p;
    }

    template <typename Tr>
    void content(Tr const& t, Model const& x, char const* which) {
        PBT_CHECK(ctx, t.size() == x.size(), "%s: size() is %zu, the history says %zu", which, static_cast<size_t>(t.size()), x.size());
        size_t i = 0;
        for (auto it = t.begin(), e = t.end(); it != e; ++it, ++i) {
            PBT_CHECK(ctx, i < x.size() && rep(*it) == x[i], "%s: element %zu of %zu is (%lld,%lld)", which, i, x.size(), (long long)rep(*it).k, (long long)rep(*it).v);
        }
        PBT_CHECK(ctx, i == x.size(), "%s: traversal ends after %zu of %zu elements", which, i, x.size());
        PBT_CHECK(ctx, t.depth() <= static_cast<size_t>(O::depth), "%s: depth() is %zu, the options limit it to %d", which, static_cast<size_t>(t.depth()), O::depth);
    }
    void agree() {
        PBT_CHECK(ctx, a->depth() == b->depth() && a->max_depth() == b->max_depth() && a->max_size() == b->max_size(),
                  "with the options depth %zu of %zu, with the same parameters given directly depth %zu of %zu", static_cast<size_t>(a->depth()), static_cast<size_t>(a->max_depth()), static_cast<size_t>(b->depth()), static_cast<size_t>(b->max_depth()));
    }

    // in a child: user code throws while an element is inserted
    template <typename Tr>
    int throwing(Tr& t) {
        pid_t c = fork();
        if (c < 0) return -1;
        if (c == 0) {
            std::set_terminate([] { _exit(77); });
            try {
                t.push_back(OptBoom<Value>{});
            } catch (std::runtime_error const&) {
                _exit(66);
            }
            _exit(1);
        }
        int st = 0;
        while (waitpid(c, &st, 0) < 0) {}
        return WIFEXITED(st) ? WEXITSTATUS(st) : -2;
    }

    void step() {
        Rep r{static_cast<int64_t>(s.draw(400)), static_cast<int64_t>(s.draw(1000))};
        if (O::kind != MAP) r.v = r.k;
        int what = static_cast<int>(s.draw(11));
        size_t n = m.size();
        bool full = a->depth() >= a->max_depth();
        if (what <= 5) {
            // grow by a run of insertions
            uint32_t len = what == 5 ? 1 + s.draw(60) : 1;
            for (uint32_t q = 0; q < len; ++q) {
                full = a->depth() >= a->max_depth();
                if (O::noexc && full) return;      // the rejection of a too deep tree may terminate here
                Value v = make(r);
                if constexpr (keyed) {
                    size_t p = lb(r.k);
                    bool present = p < m.size() && m[p].k == r.k;
                    ctx.log("insert (%lld,%lld) %s", (long long)r.k, (long long)r.v, present ? "[present]" : "");
                    bool assign = s.draw(2);
                    bool ok = both("an insertion by key", [&] { if (assign) a->insert_or_assign(v); else a->insert_v(v); }, [&] { if (assign) b->insert_or_assign(v); else b->insert_v(v); });
                    PBT_CHECK(ctx, ok || full, "an insertion is rejected below the depth limit");
                    if (ok) { if (!present) m.insert(m.begin() + static_cast<ssize_t>(p), r); else if (assign) m[p] = r; }
                    r.k = (r.k + 1) % 400;
                    if (O::kind != MAP) r.v = r.k;
                } else {
                    size_t p = s.draw(m.size() + 1);
                    ctx.log("insert %lld at %zu of %zu", (long long)r.k, p, m.size());
                    bool ok = both("an insertion by index", [&] { a->insert_index(static_cast<typename O::Size>(p), v); }, [&] { b->insert_index(static_cast<typename O::Size>(p), v); });
                    PBT_CHECK(ctx, ok || full, "an insertion is rejected below the depth limit");
                    if (ok) m.insert(m.begin() + static_cast<ssize_t>(p), r);
                }
            }
        } else if (what == 6) {
            if (!n) return;
            size_t p = s.draw(n);
            ctx.log("erase element %zu of %zu", p, n);
            if constexpr (keyed) {
                Key k = static_cast<Key>(m[p].k);
                both("erase_key", [&] { a->erase_key(k); }, [&] { b->erase_key(k); });
            } else {
                both("erase_index", [&] { a->erase_index(static_cast<typename O::Size>(p)); }, [&] { b->erase_index(static_cast<typename O::Size>(p)); });
            }
            m.erase(m.begin() + static_cast<ssize_t>(p));
        } else if (what == 7) {
            if constexpr (keyed) {
                Key k = static_cast<Key>(r.k);
                size_t p = lb(r.k);
                bool present = p < n && m[p].k == r.k, ra = false, rb = false;
                both("find", [&] { ra = std::as_const(*a).find(k).valid(); }, [&] { rb = std::as_const(*b).find(k).valid(); });
                PBT_CHECK(ctx, ra == present && rb == present, "find(%lld): %d and %d, expected %d", (long long)r.k, ra, rb, present);
                int64_t la = -1, l2 = -1;
                both("lower_bound", [&] { auto it = std::as_const(*a).lower_bound(k); if (it.valid()) la = rep(*it).k; }, [&] { auto it = std::as_const(*b).lower_bound(k); if (it.valid()) l2 = rep(*it).k; });
                int64_t want = p < n ? m[p].k : -1;
                PBT_CHECK(ctx, la == want && l2 == want, "lower_bound(%lld) is %lld and %lld, expected %lld", (long long)r.k, (long long)la, (long long)l2, (long long)want);
            } else if (n) {
                size_t p = s.draw(n);
                auto ia = std::as_const(*a).find_index(static_cast<typename O::Size>(p));
                auto oa = a->order(ia);
                auto ib = std::as_const(*b).find_index(static_cast<typename O::Size>(p));
                auto ob = b->order(ib);
                PBT_CHECK(ctx, rep(*ia) == m[p] && rep(*ib) == m[p] && static_cast<size_t>(oa) == p && static_cast<size_t>(ob) == p, "the element at %zu is wrong", p);
                PBT_CHECK(ctx, sizeof(oa) == sizeof(ob), "positions have %zu bytes, with the same parameters given directly %zu", sizeof(oa), sizeof(ob));
            }
        } else if (what == 8) {
            ctx.log("snapshot");
            pa.emplace(a->persistent());
            pb.emplace(b->persistent());
            pm = m;
        } else if (what == 9) {
            if (!pa) return;
            ctx.log("back to the snapshot");
            *a = pa->transient();
            *b = pb->transient();
            m = pm;
        } else if (s.draw(12) == 0) {
            if (full) return;
            ctx.log("user code throws during an insertion");
            ctx.label("throwing insertions");
            int x = throwing(*a), y = throwing(*b);
            auto text = [](int c) { return c == 66 ? "propagates" : c == 77 ? "terminates the program" : "does something else"; };
            PBT_CHECK(ctx, x == y, "an exception thrown by user code %s (%d), with the same parameters given directly it %s (%d)", text(x), x, text(y), y);
            PBT_CHECK(ctx, O::noexc || x == 66, "an exception thrown by user code %s (%d) although exceptions are enabled", text(x), x);
        }
        if constexpr (O::has_min) {
            if (!m.empty()) {
                int64_t want = O::min_of(m[0]);
                for (Rep const& x : m) if (O::min_less(O::min_of(x), want)) want = O::min_of(x);
                int64_t ga = static_cast<int64_t>(a->min()), gb = static_cast<int64_t>(b->min());
                PBT_CHECK(ctx, ga == want && gb == want, "min() is %lld and %lld, expected %lld", (long long)ga, (long long)gb, (long long)want);
            }
        }
        if constexpr (O::has_max) {
            if (!m.empty()) {
                int64_t want = O::max_of(m[0]);
                for (Rep const& x : m) if (O::max_less(O::max_of(x), want)) want = O::max_of(x);
                int64_t ga = static_cast<int64_t>(a->max()), gb = static_cast<int64_t>(b->max());
                PBT_CHECK(ctx, ga == want && gb == want, "max() is %lld and %lld, expected %lld", (long long)ga, (long long)gb, (long long)want);
            }
        }
        if constexpr (O::has_sum) {
            int64_t want = 0;
            for (Rep const& x : m) want += x.v;
            PBT_CHECK(ctx, static_cast<int64_t>(a->sum()) == want && static_cast<int64_t>(b->sum()) == want, "sum() is %lld and %lld, expected %lld", (long long)a->sum(), (long long)b->sum(), (long long)want);
        }
        agree();
    }

    void run() {
        ctx.log("%s", O::name);
        uint32_t steps = 4 + s.skewed(120);
        s.set_steps(steps);
        while (s.more()) {
            Src::Scope sc(s);
            step();
            if (m.size() <= 40) content(*a, m, "with the options");
        }
        content(*a, m, "with the options");
        content(*b, m, "with the parameters given directly");
        if (pa) {
            content(*pa, pm, "persistent, with the options");
            content(*pb, pm, "persistent, with the parameters given directly");
        }
        ctx.nontrivial = a->depth() > 1 || m.size() > 20;
    }
    static void unit(Src& s, Ctx& ctx) {
        Opt o{s, ctx};
        o.run();
    }
};

} // namespace pbt
