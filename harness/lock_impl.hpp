#pragma once
#include "bpptree/bpptree.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/max.hpp"
#include "bpptree/min.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/summed.hpp"
#include "lock.hpp"

namespace pbt {
using namespace bpptree;

enum : unsigned { MI = 1, MO = 2, MS = 4, MN = 8, MX = 16 };

template <typename Tree, bool pair, unsigned mix>
struct LockImpl : LockTree {
    using T = typename Tree::Transient;
    using P = typename Tree::Persistent;
    using Value = std::conditional_t<pair, std::pair<int32_t, int32_t>, int32_t>;
    static constexpr bool I = mix & MI, O = mix & MO, S = mix & MS, N = mix & MN, X = mix & MX;

    char const* text;
    std::unique_ptr<T> t = std::make_unique<T>();
    std::vector<std::unique_ptr<P>> ps;

    explicit LockImpl(char const* text) : text(text) {}

    static Value val(Rep r) {
        if constexpr (pair) return {static_cast<int32_t>(r.k), static_cast<int32_t>(r.v)};
        else return static_cast<int32_t>(r.v);
    }
    static void put(std::vector<int64_t>& o, Value const& v) {
        if constexpr (pair) { o.push_back(v.first); o.push_back(v.second); }
        else o.push_back(v);
    }
    static int64_t mapped(Value const& v) {
        if constexpr (pair) return v.second;
        else return v;
    }

    char const* name() const override { return text; }
    bool full(size_t version) const override {
        if (version < ps.size()) return ps[version]->depth() >= ps[version]->max_depth();
        return t->depth() >= t->max_depth();
    }
    size_t versions() const override { return ps.size(); }
    void snapshot() override { T const& c = *t; ps.push_back(std::make_unique<P>(c.persistent())); }
    void restore(size_t v) override { P const& c = *ps[v]; t = std::make_unique<T>(c.transient()); }
    void drop(size_t v) override { ps.erase(ps.begin() + static_cast<ssize_t>(v)); }
    void clear() override { t->clear(); }

    template <typename Tr>
    static auto at(Tr& x, size_t pos, size_t n, unsigned how) {
        if constexpr (I) if (how & 4) return x.find_index(static_cast<uint32_t>(pos));
        if (pos == n) return x.end();
        if (how & 8) return x.end() - static_cast<ssize_t>(n - pos);
        return x.begin() + static_cast<ssize_t>(pos);
    }
    void edit(LockEdit e, size_t pos, Rep r, size_t n, unsigned how) override {
        Value const v = val(r);
        if constexpr (O) if (how & 1) {
            switch (e) {
                case L_INSERT: if (how & 2) t->insert_v(v); else t->insert_or_assign(v); return;
                case L_ERASE: t->erase_key(v.first); return;
                default: if (how & 2) t->assign_v(v); else t->insert_or_assign(v); return;
            }
        }
        if constexpr (I) if (how & 2) {
            auto ix = static_cast<uint32_t>(pos);
            switch (e) {
                case L_INSERT: t->insert_index(ix, v); return;
                case L_ERASE: t->erase_index(ix); return;
                default: t->assign_index(ix, v); return;
            }
        }
        switch (e) {
            case L_INSERT:
                if (pos == n && (how & 16)) { t->push_back(v); return; }
                if (pos == 0 && (how & 16)) { t->push_front(v); return; }
                { auto it = at(*t, pos, n, how); t->insert(it, v); }
                return;
            case L_ERASE:
                if (pos + 1 == n && (how & 16)) { t->pop_back(); return; }
                if (pos == 0 && (how & 16)) { t->pop_front(); return; }
                { auto it = at(*t, pos, n, how); t->erase(it); }
                return;
            default: {
                auto it = at(*t, pos, n, how);
                if (how & 32) t->update(it, [&](auto const&) { return v; });
                else t->assign(it, v);
            }
        }
    }
    void edit_version(size_t version, LockEdit e, size_t pos, Rep r, size_t n, unsigned how) override {
        P const& c = *ps[version];
        ps.push_back(std::make_unique<P>(edited(c, e, pos, r, n, how)));
    }
    static P edited(P const& c, LockEdit e, size_t pos, Rep r, size_t n, unsigned how) {
        Value const v = val(r);
        if constexpr (O) if (how & 1) {
            switch (e) {
                case L_INSERT: if (how & 2) return c.insert_v(v); else return c.insert_or_assign(v);
                case L_ERASE: return c.erase_key(v.first);
                default: if (how & 2) return c.assign_v(v); else return c.insert_or_assign(v);
            }
        }
        if constexpr (I) if (how & 2) {
            auto ix = static_cast<uint32_t>(pos);
            switch (e) {
                case L_INSERT: return c.insert_index(ix, v);
                case L_ERASE: return c.erase_index(ix);
                default: return c.assign_index(ix, v);
            }
        }
        switch (e) {
            case L_INSERT:
                if (pos == n && (how & 16)) return c.push_back(v);
                if (pos == 0 && (how & 16)) return c.push_front(v);
                return c.insert(at(c, pos, n, how), v);
            case L_ERASE:
                if (pos + 1 == n && (how & 16)) return c.pop_back();
                if (pos == 0 && (how & 16)) return c.pop_front();
                return c.erase(at(c, pos, n, how));
            default:
                if (how & 32) return c.update(at(c, pos, n, how), [&](auto const&) { return v; });
                return c.assign(at(c, pos, n, how), v);
        }
    }
    template <typename Tr, typename It>
    static int64_t position(Tr& x, It const& it) {
        int64_t p = 0;
        Tr const& c = x;
        for (auto i = c.begin(), e = c.end(); i != e && !(i == it); ++i) ++p;
        return p;
    }
    Obs observe(size_t version, LockQuery q, size_t a, size_t b, int64_t k, unsigned how) override {
        if (version < ps.size()) {
            P const& c = *ps[version];
            return query(c, q, a, b, k, how);
        }
        if (how & 64) {
            T const& c = *t;
            return query(c, q, a, b, k, how);
        }
        return query(*t, q, a, b, k, how);
    }
    template <typename Tr>
    Obs query(Tr& x, LockQuery q, size_t a, size_t b, int64_t k, unsigned how) {
        std::vector<int64_t> o;
        size_t n = x.size();
        (void)k;
        switch (q) {
            case LQ_CONTENT:
                for (auto it = x.begin(), e = x.end(); it != e; ++it) { Value const& v = *it; put(o, v); }
                return o;
            case LQ_REVERSE:
                for (auto it = x.rbegin(), e = x.rend(); it != e; ++it) { Value const& v = *it; put(o, v); }
                return o;
            case LQ_SIZE:
                o.push_back(static_cast<int64_t>(n));
                o.push_back(x.empty());
                if (n) { put(o, x.front()); put(o, x.back()); }
                return o;
            case LQ_SUM:
                if constexpr (S) { o.push_back(x.sum()); return o; }
                break;
            case LQ_PREFIX:
                if constexpr (S) {
                    auto it = at(x, a, n, how);
                    o.push_back(x.sum_exclusive(it));
                    if (a < n) o.push_back(x.sum_inclusive(it));
                    return o;
                }
                break;
            case LQ_SUM_LB:
                if constexpr (S) { o.push_back(position(x, x.sum_lower_bound(static_cast<int32_t>(k)))); return o; }
                break;
            case LQ_EXTREMA:
                if (!n) break;
                if constexpr (N) { o.push_back(x.min()); o.push_back(mapped(*x.min_element())); }
                else o.insert(o.end(), 2, INT64_MIN);
                if constexpr (X) { o.push_back(x.max()); o.push_back(mapped(*x.max_element())); }
                else o.insert(o.end(), 2, INT64_MIN);
                if constexpr (N || X) return o;
                break;
            case LQ_RANGE:
                if (a >= b) break;
                if constexpr (N) { o.push_back(x.min(at(x, a, n, how), at(x, b, n, how >> 1))); o.push_back(mapped(*x.min_element(at(x, a, n, how), at(x, b, n, how)))); }
                else o.insert(o.end(), 2, INT64_MIN);
                if constexpr (X) { o.push_back(x.max(at(x, a, n, how), at(x, b, n, how >> 1))); o.push_back(mapped(*x.max_element(at(x, a, n, how), at(x, b, n, how)))); }
                else o.insert(o.end(), 2, INT64_MIN);
                if constexpr (N || X) return o;
                break;
            case LQ_ELEMENT: {
                if (a >= n) break;
                auto it = at(x, a, n, how);
                Value const& v = *it;
                put(o, v);
                o.push_back(it.valid());
                return o;
            }
            case LQ_INDEX:
                if constexpr (I) {
                    o.push_back(static_cast<int64_t>(x.order(at(x, a, n, how & ~4u))));
                    if (a < n) put(o, x.at_index(static_cast<uint32_t>(a)));
                    o.push_back(at(x, b, n, how) - at(x, a, n, how));
                    return o;
                }
                break;
            case LQ_KEY:
                if constexpr (O) {
                    auto key = static_cast<int32_t>(k);
                    auto f = x.find(key);
                    o.push_back(f.valid());
                    if (f.valid()) { Value const& v = *f; put(o, v); }
                    o.push_back(x.contains(key));
                    o.push_back(position(x, x.lower_bound(key)));
                    o.push_back(position(x, x.upper_bound(key)));
                    return o;
                }
                break;
            case LQ_WALK: {
                if (a >= n || !n) break;
                auto it = at(x, a, n, how);
                it += static_cast<ssize_t>(b) - static_cast<ssize_t>(a);
                o.push_back(it == at(x, b, n, how >> 1));
                o.push_back(it.valid());
                if (it.valid()) { Value const& v = *it; put(o, v); }
                return o;
            }
            default: break;
        }
        return std::nullopt;
    }
};

template <typename Impl>
struct LockMake {
    static inline char const* text = nullptr;
    static std::unique_ptr<LockTree> make() { return std::make_unique<Impl>(text); }
};
template <typename Tree, bool pair, unsigned mix>
bool lock_add(char const* text) {
    using Impl = LockImpl<Tree, pair, mix>;
    LockMake<Impl>::text = text;
    lock_factories().push_back({pair ? "map" : "vec", &LockMake<Impl>::make});
    return true;
}

} // namespace pbt
