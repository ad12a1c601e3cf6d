// Value kinds: how a model element (Rep) is represented inside a tree.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#ifdef PBT_MT
#include <atomic>
#endif
#include "engine.hpp"

namespace pbt {

// a model element: k is the key (or the value of single valued kinds, where k == v), v the mapped value
struct Rep {
    int64_t k = 0, v = 0;
    friend bool operator==(Rep const& a, Rep const& b) { return a.k == b.k && a.v == b.v; }
    friend bool operator!=(Rep const& a, Rep const& b) { return !(a == b); }
};
using Model = std::vector<Rep>;

// ---------------------------------------------------------------------------------------------------------------
// Tracked: every construction, copy, move, assignment and destruction is accounted for.  Misuse of raw or destroyed
// memory is recorded in Tracked::misuse (destructors cannot throw) and reported by the oracle after the operation.
#ifdef PBT_MT
// relaxed: orders nothing, and so hides no race from ThreadSanitizer
struct TrackedLive {
    std::atomic<int64_t> v{0};
    void operator++() { v.fetch_add(1, std::memory_order_relaxed); }
    void operator--() { v.fetch_sub(1, std::memory_order_relaxed); }
    operator int64_t() const { return v.load(std::memory_order_relaxed); }
};
struct TrackedMisuse {
    std::atomic<char const*> v{nullptr};
    void operator=(char const* w) { v.store(w, std::memory_order_relaxed); }
    operator char const*() const { return v.load(std::memory_order_relaxed); }
};
#endif
struct Tracked {
    static constexpr uint64_t alive = 0xA11CE0A11CE0A11CULL, dead = 0xDEADDEADDEADDEADULL;
#ifdef PBT_MT
    static inline TrackedLive live;
    static inline TrackedMisuse misuse;
#else
    static inline int64_t live = 0;
    static inline char const* misuse = nullptr;
#endif

    uint64_t magic = alive;
    int64_t* heap = nullptr;      // nullptr: moved from
    Tracked const* self = nullptr;

    static void bad(char const* what) { if (static_cast<char const*>(misuse) == nullptr) misuse = what; }
    void need(char const* what) const { if (magic != alive || self != this) bad(what); }

    Tracked() : heap(new int64_t(0)), self(this) { ++live; }
    explicit Tracked(int64_t x) : heap(new int64_t(x)), self(this) { ++live; }
    Tracked(Tracked const& o) : self(this) {
        o.need("copied from memory that holds no live object");
        if (o.magic == alive && o.self == &o) {
            if (!o.heap) bad("copied from a moved-from object");
            heap = new int64_t(o.heap ? *o.heap : -987654321);
        }
        ++live;
    }
    Tracked(Tracked&& o) noexcept : self(this) {
        o.need("moved from memory that holds no live object");
        if (o.magic == alive && o.self == &o) { heap = o.heap; o.heap = nullptr; }
        ++live;
    }
    Tracked& operator=(Tracked const& o) {
        need("assigned to memory that holds no live object");
        o.need("assigned from memory that holds no live object");
        if (!o.heap) bad("assigned from a moved-from object");
        if (magic != alive || o.magic != alive || this == &o || !o.heap) return *this;
        int64_t* n = new int64_t(*o.heap);
        delete heap;
        heap = n;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept {
        need("move-assigned to memory that holds no live object");
        o.need("move-assigned from memory that holds no live object");
        if (magic != alive || o.magic != alive || this == &o) return *this;
        delete heap;
        heap = o.heap;
        o.heap = nullptr;
        return *this;
    }
    ~Tracked() {
        need("destroyed twice, or destroyed without having been constructed");
        if (magic != alive) return;
        delete heap;
        magic = dead;
        --live;
    }
    int64_t get() const {
        need("read from memory that holds no live object");
        if (magic != alive) return -987654322;
        if (!heap) { bad("read a moved-from object"); return -987654321; }
        return *heap;
    }
    friend bool operator<(Tracked const& a, Tracked const& b) { return a.get() < b.get(); }
    friend bool operator==(Tracked const& a, Tracked const& b) { return a.get() == b.get(); }
    friend bool operator!=(Tracked const& a, Tracked const& b) { return a.get() != b.get(); }
};

// ---------------------------------------------------------------------------------------------------------------
// conversions of keys, mapped values and min/max results to model integers
inline std::string enc(char tag, int64_t x) {
    char b[80];
    // fixed width, so that string order is integer order; long enough not to fit a small string buffer when x is odd
    snprintf(b, sizeof b, "%c%012lld%s", tag, static_cast<long long>(x + 100000000000), (x & 1) ? "-a-string-that-lives-on-the-heap" : "");
    return b;
}
template <typename I, std::enable_if_t<std::is_integral_v<I>, bool> = true>
int64_t i64(I x) { return static_cast<int64_t>(x); }
inline int64_t i64(Tracked const& t) { return t.get(); }
inline int64_t i64(std::string const& s) {
    if (s.size() < 13) return -987654323;
    int64_t x = strtoll(s.c_str() + 1, nullptr, 10) - 100000000000;
    if (s != enc(s[0], x)) return -987654324;
    return x;
}
inline int64_t i64(std::string const* s) { return s ? i64(*s) : -987654322; }

struct Big {
    int64_t k = 0, v = 0;
    unsigned char pad[168];
    Big() { fill(); }
    Big(int64_t k, int64_t v) : k(k), v(v) { fill(); }
    void fill() { for (size_t i = 0; i < sizeof pad; ++i) pad[i] = static_cast<unsigned char>(static_cast<uint64_t>(k * 31 + v) + i); }
    bool ok() const {
        for (size_t i = 0; i < sizeof pad; ++i) if (pad[i] != static_cast<unsigned char>(static_cast<uint64_t>(k * 31 + v) + i)) return false;
        return true;
    }
    friend bool operator==(Big const& a, Big const& b) { return a.k == b.k && a.v == b.v && a.ok() == b.ok(); }
};
inline int64_t i64(Big const& b) { return b.ok() ? b.v : -987654325; }

struct Rec {
    int64_t k, v;
    std::string ks;
};
using RecPtr = std::shared_ptr<Rec const>;
inline int64_t i64(RecPtr const& r) { return r ? r->v : -987654326; }

// ---------------------------------------------------------------------------------------------------------------
// kinds whose only constructor argument is another element
#define PBT_ONE_ARG                                                                                        \
    static constexpr bool two_arg = false, boom = true;                                                    \
    using BoomTo = Value;                                                                                  \
    template <typename F>                                                                                  \
    static decltype(auto) args2(Rep const& r, int form, F&& f) { return args(r, form, f); }                \
    template <typename B, typename F>                                                                      \
    static decltype(auto) boom_args(Rep const&, B const& b, F&& f) { return f(b); }

// the values a field of type X may take: far apart, but models and sums have room for arithmetic
template <typename X, bool = std::is_integral_v<X>>
struct Limits {         // objects that hold an integer, or a string for it
    static constexpr int64_t hi = 90000000000LL, lo = -hi, vhi = hi, vlo = lo;
};
template <typename X>
struct Limits<X, true> {
    // keys: (nearly) all of the range of the type
    static constexpr int64_t hi = sizeof(X) == 8 ? INT64_MAX - (1 << 20) : static_cast<int64_t>(std::numeric_limits<X>::max());
    static constexpr int64_t lo = std::is_unsigned_v<X> ? 0 : sizeof(X) == 8 ? -hi : static_cast<int64_t>(std::numeric_limits<X>::min());
    // values: differences and sums of a few do not overflow
    static constexpr int64_t vhi = sizeof(X) == 8 ? 1LL << 54 : sizeof(X) == 4 ? (1 << 30) - 10000 : hi;
    static constexpr int64_t vlo = std::is_unsigned_v<X> ? 0 : sizeof(X) >= 4 ? -vhi : lo;
};
#define PBT_LIMITS(K, V)                                                                                   \
    static constexpr int64_t lo = Limits<K>::lo, hi = Limits<K>::hi;                                       \
    static constexpr int64_t vmin = Limits<V>::vlo, vmax = Limits<V>::vhi;

// Each kind provides: Value, Key, Mapped, single, lo/hi (bounds of k), vmin/vmax (bounds of v), make, rep, key, mapped, args.
//   single: the element is its own key (k == v)
//   args(r, form, f): call f with constructor arguments for r
template <typename I>
struct KInt {
    using Value = I;
    using Key = I;
    using Mapped = I;
    static constexpr bool single = true, arith = true, keyed = true;
    PBT_LIMITS(I, I)
    static Value make(Rep const& r) { return static_cast<I>(r.v); }
    static Rep rep(Value const& x) { return {static_cast<int64_t>(x), static_cast<int64_t>(x)}; }
    static Key key(int64_t k) { return static_cast<I>(k); }
    static Mapped mapped(Rep const& r) { return static_cast<I>(r.v); }
    static Key const& key_of(Value const& v) { return v; }
    PBT_ONE_ARG
    template <typename F>
    static decltype(auto) args(Rep const& r, int form, F&& f) {
        if (form & 1) { I const lv = make(r); return f(lv); }
        return f(make(r));
    }
};

template <typename K, typename M>
struct KPairBase {
    using Value = std::pair<K, M>;
    using Key = K;
    using Mapped = M;
    static constexpr bool single = false, arith = std::is_integral_v<M>, keyed = true;
    PBT_LIMITS(K, M)
    static K mk_key(int64_t x) {
        if constexpr (std::is_same_v<K, std::string>) return enc('k', x);
        else return static_cast<K>(x);
    }
    static M mk_map(int64_t x) {
        if constexpr (std::is_same_v<M, std::string>) return enc('v', x);
        else return static_cast<M>(x);
    }
    static Value make(Rep const& r) { return Value(mk_key(r.k), mk_map(r.v)); }
    static Rep rep(Value const& x) { return {i64(x.first), i64(x.second)}; }
    static Key key(int64_t k) { return mk_key(k); }
    static Mapped mapped(Rep const& r) { return mk_map(r.v); }
    static Key const& key_of(Value const& v) { return v.first; }
    static constexpr bool two_arg = true, boom = true;
    using BoomTo = M;
    template <typename F>
    static decltype(auto) args2(Rep const& r, int form, F&& f) {
        if (form & 1) { Value const lv = make(r); return f(lv); }
        return f(mk_key(r.k), mk_map(r.v));
    }
    template <typename B, typename F>
    static decltype(auto) boom_args(Rep const& r, B const& b, F&& f) { K const k = mk_key(r.k); return f(k, b); }
    template <typename F>
    static decltype(auto) args(Rep const& r, int form, F&& f) {
        switch (form & 3) {
            case 0: return f(mk_key(r.k), mk_map(r.v));
            case 1: { Value const lv = make(r); return f(lv); }
            case 2: return f(make(r));
            default: {
                K const k = mk_key(r.k);
                return f(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(mk_map(r.v)));
            }
        }
    }
};
using KPair = KPairBase<int32_t, int32_t>;
using KStr = KPairBase<std::string, std::string>;
using KStrInt = KPairBase<std::string, int64_t>;
using KTrk = KPairBase<Tracked, Tracked>;

struct KTrk1 {
    using Value = Tracked;
    using Key = Tracked;
    using Mapped = Tracked;
    static constexpr bool single = true, arith = false, keyed = true;
    PBT_LIMITS(Tracked, Tracked)
    static Value make(Rep const& r) { return Tracked(r.v); }
    static Rep rep(Value const& x) { int64_t i = x.get(); return {i, i}; }
    static Key key(int64_t k) { return Tracked(k); }
    static Mapped mapped(Rep const& r) { return Tracked(r.v); }
    static Key const& key_of(Value const& v) { return v; }
    PBT_ONE_ARG
    template <typename F>
    static decltype(auto) args(Rep const& r, int form, F&& f) {
        if (form & 1) { Tracked const lv(r.v); return f(lv); }
        return f(Tracked(r.v));
    }
};

struct KBig {
    using Value = Big;
    using Key = int64_t;
    using Mapped = Big;
    static constexpr bool single = false, arith = false, keyed = false;
    PBT_LIMITS(Tracked, Tracked)
    static Value make(Rep const& r) { return Big(r.k, r.v); }
    static Rep rep(Value const& x) { return x.ok() ? Rep{x.k, x.v} : Rep{-987654325, -987654325}; }
    static Key key(int64_t k) { return k; }
    static Key const& key_of(Value const& v) { return v.k; }
    static Mapped mapped(Rep const& r) { return make(r); }
    PBT_ONE_ARG
    template <typename F>
    static decltype(auto) args(Rep const& r, int form, F&& f) {
        if (form & 1) return f(r.k, r.v);
        return f(make(r));
    }
};

// the key comes second
struct KTuple {
    using Value = std::tuple<int64_t, uint32_t>;
    using Key = uint32_t;
    using Mapped = int64_t;
    static constexpr bool single = false, arith = false, keyed = true;
    PBT_LIMITS(uint32_t, int64_t)
    static Value make(Rep const& r) { return Value(r.v, static_cast<uint32_t>(r.k)); }
    static Rep rep(Value const& x) { return {static_cast<int64_t>(std::get<1>(x)), std::get<0>(x)}; }
    static Key key(int64_t k) { return static_cast<uint32_t>(k); }
    static Key const& key_of(Value const& v) { return std::get<1>(v); }
    static Mapped mapped(Rep const& r) { return r.v; }
    PBT_ONE_ARG
    template <typename F>
    static decltype(auto) args(Rep const& r, int form, F&& f) {
        switch (form & 3) {
            case 0: return f(make(r));
            case 1: { Value const lv = make(r); return f(lv); }
            case 2: { int64_t const v = r.v; return f(v, static_cast<uint32_t>(r.k)); }
            default: return f(int64_t(r.v), static_cast<uint32_t>(r.k));
        }
    }
};

// the key comes first
struct KTup {
    using Value = std::tuple<int32_t, int64_t>;
    using Key = int32_t;
    using Mapped = int64_t;
    static constexpr bool single = false, arith = true, keyed = true, two_arg = false, boom = true;
    PBT_LIMITS(int32_t, int64_t)
    static Value make(Rep const& r) { return Value(static_cast<int32_t>(r.k), r.v); }
    static Rep rep(Value const& x) { return {std::get<0>(x), std::get<1>(x)}; }
    static Key key(int64_t k) { return static_cast<int32_t>(k); }
    static Key const& key_of(Value const& v) { return std::get<0>(v); }
    static Mapped mapped(Rep const& r) { return r.v; }
    using BoomTo = int64_t;
    template <typename F>
    static decltype(auto) args2(Rep const& r, int form, F&& f) {
        if (form & 1) { Value const lv = make(r); return f(lv); }
        return f(static_cast<int32_t>(r.k), int64_t(r.v));
    }
    template <typename B, typename F>
    static decltype(auto) boom_args(Rep const& r, B const& b, F&& f) { int32_t const k = static_cast<int32_t>(r.k); return f(k, b); }
    template <typename F>
    static decltype(auto) args(Rep const& r, int form, F&& f) {
        switch (form & 3) {
            case 0: return f(make(r));
            case 1: { Value const lv = make(r); return f(lv); }
            case 2: { int32_t const k = static_cast<int32_t>(r.k); return f(k, int64_t(r.v)); }
            default: { int64_t const v = r.v; return f(static_cast<int32_t>(r.k), v); }
        }
    }
};

// pairs whose key is the second field
struct KRPair {
    using Value = std::pair<int64_t, int32_t>;
    using Key = int32_t;
    using Mapped = int64_t;
    static constexpr bool single = false, arith = true, keyed = true, two_arg = false, boom = true;
    PBT_LIMITS(int32_t, int64_t)
    static Value make(Rep const& r) { return Value(r.v, static_cast<int32_t>(r.k)); }
    static Rep rep(Value const& x) { return {x.second, x.first}; }
    static Key key(int64_t k) { return static_cast<int32_t>(k); }
    static Key const& key_of(Value const& v) { return v.second; }
    static Mapped mapped(Rep const& r) { return r.v; }
    using BoomTo = int64_t;
    template <typename F>
    static decltype(auto) args2(Rep const& r, int form, F&& f) {
        if (form & 1) { Value const lv = make(r); return f(lv); }
        return f(int64_t(r.v), static_cast<int32_t>(r.k));
    }
    template <typename B, typename F>
    static decltype(auto) boom_args(Rep const& r, B const& b, F&& f) { int32_t const k = static_cast<int32_t>(r.k); return f(b, k); }
    template <typename F>
    static decltype(auto) args(Rep const& r, int form, F&& f) {
        switch (form & 3) {
            case 0: return f(int64_t(r.v), static_cast<int32_t>(r.k));
            case 1: { Value const lv = make(r); return f(lv); }
            case 2: return f(make(r));
            default: {
                int32_t const k = static_cast<int32_t>(r.k);
                return f(std::piecewise_construct, std::forward_as_tuple(int64_t(r.v)), std::forward_as_tuple(k));
            }
        }
    }
};

// three fields, the key last; the element itself is what key lookups return
struct KTriple {
    using Value = std::tuple<int32_t, std::string, int32_t>;
    using Key = int32_t;
    using Mapped = Value;
    static constexpr bool single = false, arith = false, keyed = true;
    PBT_LIMITS(int32_t, int32_t)
    static Value make(Rep const& r) { return Value(static_cast<int32_t>(r.v), enc('t', r.v), static_cast<int32_t>(r.k)); }
    static Rep rep(Value const& x) {
        if (std::get<1>(x) != enc('t', std::get<0>(x))) return {-987654327, -987654327};
        return {std::get<2>(x), std::get<0>(x)};
    }
    static Key key(int64_t k) { return static_cast<int32_t>(k); }
    static Key const& key_of(Value const& v) { return std::get<2>(v); }
    static Mapped mapped(Rep const& r) { return make(r); }
    PBT_ONE_ARG
    template <typename F>
    static decltype(auto) args(Rep const& r, int form, F&& f) {
        switch (form & 3) {
            case 0: return f(make(r));
            case 1: { Value const lv = make(r); return f(lv); }
            case 2: { int32_t const v = static_cast<int32_t>(r.v); return f(v, enc('t', r.v), static_cast<int32_t>(r.k)); }
            default: { std::string const t = enc('t', r.v); return f(static_cast<int32_t>(r.v), t, static_cast<int32_t>(r.k)); }
        }
    }
};
inline int64_t i64(KTriple::Value const& t) { return KTriple::rep(t).v; }

struct KPtr {
    using Value = RecPtr;
    using Key = std::string const*;
    using Mapped = RecPtr;
    static constexpr bool single = false, arith = false, keyed = true;
    PBT_LIMITS(std::string, int64_t)
    static Value make(Rep const& r) { return std::make_shared<Rec const>(Rec{r.k, r.v, enc('k', r.k)}); }
    static Rep rep(Value const& x) {
        if (!x) return {-987654326, -987654326};
        if (x->ks != enc('k', x->k)) return {-987654328, -987654328};
        return {x->k, x->v};
    }
    // keys outlive every case: the same string object is reused for equal keys
    static Key key(int64_t k);
    static Key key_of(Value const& v) { return &v->ks; }
    static Mapped mapped(Rep const& r) { return make(r); }
    PBT_ONE_ARG
    template <typename F>
    static decltype(auto) args(Rep const& r, int form, F&& f) {
        if (form & 1) { Value const lv = make(r); return f(lv); }
        return f(make(r));
    }
};
struct PtrExtractor {
    std::string const* operator()(RecPtr const& t) const { return &t->ks; }
    std::string const* get_key(RecPtr const& t) const { return &t->ks; }
    RecPtr const& get_value(RecPtr const& t) const { return t; }
    template <typename F, typename K, typename W>
    decltype(auto) apply(F&& f, K const&, W&& value) const { return f(std::forward<W>(value)); }
};
struct PtrLess {
    bool operator()(std::string const* a, std::string const* b) const { return *a < *b; }
};
struct PtrMore {
    bool operator()(std::string const* a, std::string const* b) const { return *b < *a; }
};
struct PtrVal {
    int64_t operator()(RecPtr const& t) const { return t->v; }
};
inline KPtr::Key KPtr::key(int64_t k) {
    // small fixed ring: a key is only used during one call
    static std::string ring[8];
    static size_t next = 0;
    std::string& s = ring[next++ % 8];
    s = enc('k', k);
    return &s;
}

// extractors for sums and minima of kinds whose field is not itself the number
struct SumSecond {
    template <typename A, typename B>
    int64_t operator()(std::pair<A, B> const& p) const { return i64(p.second); }
};
struct Quarters {
    double operator()(std::pair<int32_t, int32_t> const& p) const { return p.second * 0.25; }
};
struct BigVal {
    int64_t operator()(Big const& b) const { return b.v; }
};
struct TrkVal {
    int64_t operator()(Tracked const& b) const { return b.get(); }
};

// a sum type that owns memory and is left empty by a move; empty ones may be copied and assigned, not used
struct Amount {
    std::unique_ptr<int64_t> p;
    Amount() : p(new int64_t(0)) {}
    Amount(int64_t v) : p(new int64_t(v)) {}
    Amount(Amount const& o) : p(o.p ? new int64_t(*o.p) : nullptr) {}
    Amount(Amount&&) noexcept = default;
    Amount& operator=(Amount const& o) { if (this != &o) p.reset(o.p ? new int64_t(*o.p) : nullptr); return *this; }
    Amount& operator=(Amount&&) noexcept = default;
    int64_t get() const {
        if (p) return *p;
        Tracked::bad("a sum was used after it was moved from");
        return -987654329;
    }
    explicit operator int64_t() const { return get(); }
    explicit operator long long() const { return get(); }
    Amount& operator+=(Amount const& o) { return *this = Amount(get() + o.get()); }
    Amount& operator-=(Amount const& o) { return *this = Amount(get() - o.get()); }
    Amount operator-() const { return Amount(-get()); }
    friend Amount operator+(Amount const& a, Amount const& b) { return Amount(a.get() + b.get()); }
    friend Amount operator-(Amount const& a, Amount const& b) { return Amount(a.get() - b.get()); }
    // a tree may compare sums in any way it likes
    friend bool operator<(Amount const& a, Amount const& b) { return a.get() < b.get(); }
    friend bool operator>(Amount const& a, Amount const& b) { return a.get() > b.get(); }
    friend bool operator<=(Amount const& a, Amount const& b) { return a.get() <= b.get(); }
    friend bool operator>=(Amount const& a, Amount const& b) { return a.get() >= b.get(); }
    friend bool operator==(Amount const& a, Amount const& b) { return a.get() == b.get(); }
    friend bool operator!=(Amount const& a, Amount const& b) { return a.get() != b.get(); }
};
struct SumAmount {
    template <typename A, typename B>
    Amount operator()(std::pair<A, B> const& p) const { return Amount(i64(p.second)); }
};

} // namespace pbt
