// P12: reference proxies of element types whose operators are templates, so that no operator applies by conversion and
// the proxy has to bring its own (numbers of a class template, strings, pairs).
#include "configs.hpp"

namespace pbt {
namespace {

// every operator gives a different result, depends on the order of its operands and is defined on its own; values are
// only partly ordered, so that no comparison is the negation of another
template <typename T>
struct Num {
    T x = 0;
};
template <typename A, typename B>
Num<A> mixed(int op, Num<A> const& a, Num<B> const& b) {
    return {static_cast<A>(mix64(mix64(static_cast<uint64_t>(a.x) * 3 + static_cast<uint64_t>(op)) ^ static_cast<uint64_t>(b.x)) % 64 + sizeof(B))};
}
#define PBT_BINARY(op, n) \
    template <typename A, typename B> Num<A> operator op(Num<A> const& a, Num<B> const& b) { return mixed(n, a, b); } \
    template <typename A, typename B> Num<A>& operator op##=(Num<A>& a, Num<B> const& b) { return a = mixed(n, a, b); }
PBT_BINARY(+, 1) PBT_BINARY(-, 2) PBT_BINARY(*, 3) PBT_BINARY(/, 4) PBT_BINARY(%, 5) PBT_BINARY(^, 6) PBT_BINARY(&, 7) PBT_BINARY(|, 8) PBT_BINARY(<<, 9) PBT_BINARY(>>, 10)
#undef PBT_BINARY
template <typename A, typename B> bool comparable(Num<A> const& a, Num<B> const& b) { return (a.x & 1) == (b.x & 1); }
template <typename A, typename B> bool operator==(Num<A> const& a, Num<B> const& b) { return static_cast<int64_t>(a.x) == static_cast<int64_t>(b.x); }
template <typename A, typename B> bool operator<(Num<A> const& a, Num<B> const& b) { return comparable(a, b) && a.x < b.x; }
template <typename A, typename B> bool operator>(Num<A> const& a, Num<B> const& b) { return comparable(a, b) && a.x > b.x; }
template <typename A, typename B> bool operator<=(Num<A> const& a, Num<B> const& b) { return comparable(a, b) && a.x <= b.x; }
template <typename A, typename B> bool operator>=(Num<A> const& a, Num<B> const& b) { return comparable(a, b) && a.x >= b.x; }
template <typename A> Num<A>& operator++(Num<A>& a) { a.x += 5; return a; }
template <typename A> Num<A>& operator--(Num<A>& a) { a.x -= 7; return a; }
template <typename A> Num<A> operator++(Num<A>& a, int) { Num<A> r{a.x * 2 + 1}; a.x += 11; return r; }      // neither the old value nor what ++a does
template <typename A> Num<A> operator--(Num<A>& a, int) { Num<A> r{a.x * 3 + 2}; a.x -= 13; return r; }

using N = Num<int64_t>;
using M = Num<int32_t>;
struct NumVal {
    int64_t operator()(N const& n) const { return n.x; }
    template <typename K>
    int64_t operator()(std::pair<K, N> const& n) const { return n.second.x; }
    int64_t operator()(std::string const& n) const { return static_cast<int64_t>(n.size()); }
};

using NVec = BppTree<N, 40, 136, 7>::mixins<IndexedBuilder<int32_t>, SummedBuilder<NumVal>>::Transient;
using NMap = BppTree<std::pair<int32_t, N>, 56, 140, 7>::mixins<OrderedBuilder<>, SummedBuilder<NumVal>>::Transient;
using SVec = BppTree<std::string, 136, 136, 7>::mixins<SummedBuilder<NumVal>, IndexedBuilder<>>::Transient;

std::string show(N const& n) { return std::to_string(n.x); }
std::string show(M const& n) { return std::to_string(n.x) + " (int32)"; }
std::string show(std::string const& s) { return "\"" + s + "\""; }
bool same(N const& a, N const& b) { return a.x == b.x; }
bool same(std::string const& a, std::string const& b) { return a == b; }

struct ProxyOps {
    Src& s;
    Ctx& ctx;

    // get() gives the proxy of the element that x is the value of
    template <typename E, typename U, typename Get>
    void with_value(int op, Get&& get, E& x, U const& u, char const* where) {
        ctx.log("    operator %d of %s and %s (%s)", op, show(x).c_str(), show(u).c_str(), where);
#define PBT_PROXY_CMP(n, o) case n: PBT_CHECK(ctx, (get() o u) == (x o u), "proxy " #o " %s is wrong for %s", show(u).c_str(), show(x).c_str()); \
                                    PBT_CHECK(ctx, (u o get()) == (u o x), "%s " #o " proxy is wrong for %s", show(u).c_str(), show(x).c_str()); break;
#define PBT_PROXY_BIN(n, o) case n: { E r = get() o u, e = x o u; PBT_CHECK(ctx, same(r, e), "proxy " #o " %s is %s for %s, expected %s", show(u).c_str(), show(r).c_str(), show(x).c_str(), show(e).c_str()); \
                                      auto q = u o get(); auto f = u o x; PBT_CHECK(ctx, show(q) == show(f), "%s " #o " proxy is %s for %s, expected %s", show(u).c_str(), show(q).c_str(), show(x).c_str(), show(f).c_str()); break; }
#define PBT_PROXY_SET(n, o) case n: { E e = x o u; E const& r = get() o##= u; PBT_CHECK(ctx, same(r, e), "proxy " #o "= %s is %s for %s, expected %s", show(u).c_str(), show(r).c_str(), show(x).c_str(), show(e).c_str()); x = e; break; }
        switch (op) {
            PBT_PROXY_CMP(0, ==) PBT_PROXY_CMP(1, <) PBT_PROXY_CMP(2, >) PBT_PROXY_CMP(3, <=) PBT_PROXY_CMP(4, >=)
            PBT_PROXY_BIN(5, +) PBT_PROXY_SET(6, +)
            case 7: if constexpr (std::is_same_v<E, U>) { E const& r = (get() = u); x = u; PBT_CHECK(ctx, same(r, x), "proxy = %s is %s", show(u).c_str(), show(r).c_str()); } break;
            case 8: { E const& r = get(); PBT_CHECK(ctx, same(r, x) && same(get().get(), x), "proxy reads %s, expected %s", show(r).c_str(), show(x).c_str()); break; }
            default:
                if constexpr (std::is_same_v<E, N>) {
                    switch (op) {
                        PBT_PROXY_BIN(9, -) PBT_PROXY_BIN(10, *) PBT_PROXY_BIN(11, /) PBT_PROXY_BIN(12, %) PBT_PROXY_BIN(13, ^) PBT_PROXY_BIN(14, &) PBT_PROXY_BIN(15, |) PBT_PROXY_BIN(16, <<) PBT_PROXY_BIN(17, >>)
                        PBT_PROXY_SET(18, -) PBT_PROXY_SET(19, *) PBT_PROXY_SET(20, /) PBT_PROXY_SET(21, %) PBT_PROXY_SET(22, ^) PBT_PROXY_SET(23, &) PBT_PROXY_SET(24, |) PBT_PROXY_SET(25, <<) PBT_PROXY_SET(26, >>)
                        case 27: { ++x; E const& r = ++get(); PBT_CHECK(ctx, same(r, x), "++proxy is %s, expected %s", show(r).c_str(), show(x).c_str()); break; }
                        case 28: { --x; E const& r = --get(); PBT_CHECK(ctx, same(r, x), "--proxy is %s, expected %s", show(r).c_str(), show(x).c_str()); break; }
                        case 29: { E e = x++; E r = get()++; PBT_CHECK(ctx, same(r, e), "proxy++ is %s, expected %s", show(r).c_str(), show(e).c_str()); break; }
                        default: { E e = x--; E r = get()--; PBT_CHECK(ctx, same(r, e), "proxy-- is %s, expected %s", show(r).c_str(), show(e).c_str()); break; }
                    }
                }
        }
        PBT_CHECK(ctx, same(get().get(), x), "after operator %d with %s the element is %s, expected %s", op, show(u).c_str(), show(get().get()).c_str(), show(x).c_str());
#undef PBT_PROXY_CMP
#undef PBT_PROXY_BIN
#undef PBT_PROXY_SET
    }
    template <typename E, typename Get, typename Get2>
    void with_proxy(int op, Get&& get, E& x, Get2&& get2, E const& y, char const* where) {
        E u = y;        // x and y may be the same element
        ctx.log("    operator %d of two proxies for %s and %s (%s)", op, show(x).c_str(), show(u).c_str(), where);
#define PBT_PROXY_CMP(n, o) case n: PBT_CHECK(ctx, (get() o get2()) == (x o u), "proxy " #o " proxy is wrong for %s and %s", show(x).c_str(), show(u).c_str()); break;
#define PBT_PROXY_BIN(n, o) case n: { E r = get() o get2(), e = x o u; PBT_CHECK(ctx, same(r, e), "proxy " #o " proxy is %s for %s and %s, expected %s", show(r).c_str(), show(x).c_str(), show(u).c_str(), show(e).c_str()); break; }
#define PBT_PROXY_SET(n, o) case n: { E e = x o u; E const& r = get() o##= get2(); PBT_CHECK(ctx, same(r, e), "proxy " #o "= proxy is %s for %s and %s, expected %s", show(r).c_str(), show(x).c_str(), show(u).c_str(), show(e).c_str()); x = e; break; }
        switch (op) {
            PBT_PROXY_CMP(0, ==) PBT_PROXY_CMP(1, <) PBT_PROXY_CMP(2, >) PBT_PROXY_CMP(3, <=) PBT_PROXY_CMP(4, >=)
            PBT_PROXY_BIN(5, +) PBT_PROXY_SET(6, +)
            default:
                if constexpr (std::is_same_v<E, N>) {
                    switch (op) {
                        PBT_PROXY_BIN(9, -) PBT_PROXY_BIN(10, *) PBT_PROXY_BIN(11, /) PBT_PROXY_BIN(12, %) PBT_PROXY_BIN(13, ^) PBT_PROXY_BIN(14, &) PBT_PROXY_BIN(15, |) PBT_PROXY_BIN(16, <<) PBT_PROXY_BIN(17, >>)
                        PBT_PROXY_SET(18, -) PBT_PROXY_SET(19, *) PBT_PROXY_SET(20, /) PBT_PROXY_SET(21, %) PBT_PROXY_SET(22, ^) PBT_PROXY_SET(23, &) PBT_PROXY_SET(24, |) PBT_PROXY_SET(25, <<) PBT_PROXY_SET(26, >>)
                        default: break;
                    }
                }
        }
#undef PBT_PROXY_CMP
#undef PBT_PROXY_BIN
#undef PBT_PROXY_SET
        PBT_CHECK(ctx, same(get().get(), x), "after operator %d with a proxy for %s the element is %s, expected %s", op, show(u).c_str(), show(get().get()).c_str(), show(x).c_str());
    }

    template <typename E>
    E element() {
        if constexpr (std::is_same_v<E, N>) {
            return {static_cast<int64_t>(s.draw(12))};
        } else {
            std::string r(s.draw(4), 'a');
            for (char& c : r) c = static_cast<char>('a' + s.draw(3));
            return r;
        }
    }

    template <typename E, typename Tree, typename Elements>
    void content(Tree const& t, Elements const& m, char const* which) {
        auto it = t.begin();
        int64_t sum = 0;
        for (size_t i = 0; i < m.size(); ++i, ++it) {
            PBT_CHECK(ctx, it != t.end(), "%s: ends after %zu of %zu elements", which, i, m.size());
            bool ok;
            if constexpr (std::is_same_v<typename Elements::value_type, E>) {
                ok = same(*it, m[i]);
                sum += NumVal()(m[i]);
            } else {
                ok = it->first == m[i].first && same(it->second, m[i].second);
                sum += NumVal()(m[i]);
            }
            PBT_CHECK(ctx, ok, "%s: element %zu of %zu is not what the history says", which, i, m.size());
        }
        PBT_CHECK(ctx, it == t.end() && t.size() == m.size(), "%s: %zu elements, expected %zu", which, static_cast<size_t>(t.size()), m.size());
        PBT_CHECK(ctx, t.sum() == sum, "%s: sum() is %lld, expected %lld", which, (long long)t.sum(), (long long)sum);
    }

    template <typename E, typename Tree>
    void vector(char const* what) {
        ctx.log("%s", what);
        Tree t;
        std::vector<E> m, snap_m;
        uint32_t n = 1 + s.skewed(90);
        for (uint32_t i = 0; i < n; ++i) {
            m.push_back(element<E>());
            t.push_back(m.back());
        }
        std::optional<decltype(t.persistent())> snap;
        s.set_steps(4 + s.skewed(60));
        while (s.more()) {
            Src::Scope sc(s);
            ctx.ops++;
            if (!snap || s.chance(1, 12)) {
                if (s.draw(2)) { snap.reset(); snap.emplace(t.persistent()); snap_m = m; }
            }
            size_t i = s.draw(m.size()), j = s.draw(m.size());
            int op = static_cast<int>(s.draw(std::is_same_v<E, N> ? 31 : 9));
            int kind = static_cast<int>(s.draw(3));
            int operand = static_cast<int>(s.draw(3));
            E u = element<E>();
            auto d = [](size_t k) { return static_cast<ssize_t>(k); };
            auto from_end = [&](size_t k) { return static_cast<ssize_t>(m.size() - 1 - k); };
            ctx.log("elements %zu and %zu of %zu", i, j, m.size());
            if (kind == 0) {
                using Sz = decltype(t.order(t.begin()));
                Sz si = static_cast<Sz>(i), sj = static_cast<Sz>(j);
                if (operand == 0) with_value(op, [&] { return t[si]; }, m[i], u, "subscript");
                else if (operand == 1) with_proxy(op, [&] { return t[si]; }, m[i], [&] { return t[sj]; }, m[j], "subscripts");
                else other(op, [&] { return t[si]; }, m[i], u, "subscript");
            } else if (kind == 1) {
                auto a = t.begin() + d(i), b = t.begin() + d(j);
                if (operand == 0) with_value(op, [&] { return *a; }, m[i], u, "iterator");
                else if (operand == 1) with_proxy(op, [&] { return *a; }, m[i], [&] { return *b; }, m[j], "iterators");
                else other(op, [&] { return *a; }, m[i], u, "iterator");
            } else {
                auto a = t.rbegin() + from_end(i), b = t.rbegin() + from_end(j);
                if (operand == 0) with_value(op, [&] { return *a; }, m[i], u, "reverse iterator");
                else if (operand == 1) with_proxy(op, [&] { return *a; }, m[i], [&] { return *b; }, m[j], "reverse iterators");
                else other(op, [&] { return *a; }, m[i], u, "reverse iterator");
            }
            content<E>(t, m, "the tree");
            if (snap) content<E>(*snap, snap_m, "the version taken before");
        }
        ctx.nontrivial = t.depth() > 1 && snap;
    }
    // an operand of another type
    template <typename E, typename Get>
    void other(int op, Get&& get, E& x, E const& u, char const* where) {
        if constexpr (std::is_same_v<E, N>) {
            with_value(op, get, x, M{static_cast<int32_t>(u.x)}, where);
        } else {
            ctx.log("    operator %d of %s and a literal (%s)", op, show(x).c_str(), where);
            switch (op) {
                case 0: PBT_CHECK(ctx, (get() == "ab") == (x == "ab") && ("ab" == get()) == ("ab" == x), "proxy == literal is wrong for %s", show(x).c_str()); break;
                case 1: PBT_CHECK(ctx, (get() < "ab") == (x < "ab") && ("ab" < get()) == ("ab" < x), "proxy < literal is wrong for %s", show(x).c_str()); break;
                case 2: PBT_CHECK(ctx, (get() > "ab") == (x > "ab") && ("ab" > get()) == ("ab" > x), "proxy > literal is wrong for %s", show(x).c_str()); break;
                case 3: PBT_CHECK(ctx, (get() <= "ab") == (x <= "ab") && ("ab" <= get()) == ("ab" <= x), "proxy <= literal is wrong for %s", show(x).c_str()); break;
                case 4: PBT_CHECK(ctx, (get() >= "ab") == (x >= "ab") && ("ab" >= get()) == ("ab" >= x), "proxy >= literal is wrong for %s", show(x).c_str()); break;
                case 5: PBT_CHECK(ctx, get() + "cd" == x + "cd" && "cd" + get() == "cd" + x, "proxy + literal is wrong for %s", show(x).c_str()); break;
                default:
                    if (x.size() > 40) { x = "c"; get() = x; }
                    x += "cd";
                    get() += "cd";
                    PBT_CHECK(ctx, same(get().get(), x), "after proxy += literal the element is %s, expected %s", show(get().get()).c_str(), show(x).c_str());
            }
        }
    }

    void map() {
        ctx.log("map of numbers");
        NMap t;
        std::vector<std::pair<int32_t, N>> m, snap_m;
        std::optional<decltype(t.persistent())> snap;
        uint32_t n = 1 + s.skewed(70);
        for (uint32_t i = 0; i < n; ++i) {
            int32_t k = static_cast<int32_t>(s.draw(200));
            N v = element<N>();
            auto p = std::lower_bound(m.begin(), m.end(), k, [](auto const& e, int32_t x) { return e.first < x; });
            if (p != m.end() && p->first == k) p->second = v;
            else m.insert(p, {k, v});
            t[k] = v;
        }
        s.set_steps(4 + s.skewed(60));
        while (s.more()) {
            Src::Scope sc(s);
            ctx.ops++;
            if (!snap || s.chance(1, 12)) {
                if (s.draw(2)) { snap.reset(); snap.emplace(t.persistent()); snap_m = m; }
            }
            size_t i = s.draw(m.size()), j = s.draw(m.size());
            int32_t k = m[i].first, l = m[j].first;
            int op = static_cast<int>(s.draw(31));
            int operand = static_cast<int>(s.draw(4));
            N u = element<N>();
            ctx.log("keys %d and %d", k, l);
            if (operand == 0) with_value(op, [&] { return t[k]; }, m[i].second, u, "key");
            else if (operand == 1) with_value(op, [&] { return t[k]; }, m[i].second, M{static_cast<int32_t>(u.x)}, "key");
            else if (operand == 2) with_proxy(op, [&] { return t[k]; }, m[i].second, [&] { return t[l]; }, m[j].second, "keys");
            else {
                // pairs
                auto a = t.find(k), b = t.find(l);
                std::pair<int32_t, N> const &x = m[i], y = s.draw(2) ? m[j] : std::pair<int32_t, N>(m[j].first, u);
                bool pp = s.draw(2);
                PBT_CHECK(ctx, (*a == y) == (x == y) && (y == *a) == (y == x), "comparing a proxy of a pair: == is wrong");
                PBT_CHECK(ctx, (*a < y) == (x < y) && (y < *a) == (y < x), "comparing a proxy of a pair: < is wrong");
                PBT_CHECK(ctx, (*a > y) == (x > y) && (y > *a) == (y > x), "comparing a proxy of a pair: > is wrong");
                PBT_CHECK(ctx, (*a <= y) == (x <= y) && (y <= *a) == (y <= x), "comparing a proxy of a pair: <= is wrong");
                PBT_CHECK(ctx, (*a >= y) == (x >= y) && (y >= *a) == (y >= x), "comparing a proxy of a pair: >= is wrong");
                if (pp) PBT_CHECK(ctx, (*a == *b) == (m[i] == m[j]) && (*a < *b) == (m[i] < m[j]) && (*a <= *b) == (m[i] <= m[j]) && (*a > *b) == (m[i] > m[j]) && (*a >= *b) == (m[i] >= m[j]), "comparing two proxies of pairs is wrong");
            }
            content<N>(t, m, "the tree");
            if (snap) content<N>(*snap, snap_m, "the version taken before");
        }
        ctx.nontrivial = t.depth() > 1 && snap;
    }
};

void proxy_num(Src& s, Ctx& ctx) { ProxyOps{s, ctx}.vector<N, NVec>("vector of numbers"); }
void proxy_str(Src& s, Ctx& ctx) { ProxyOps{s, ctx}.vector<std::string, SVec>("vector of strings"); }
void proxy_map(Src& s, Ctx& ctx) { ProxyOps{s, ctx}.map(); }
Register r1("proxy-num", proxy_num), r2("proxy-str", proxy_str), r3("proxy-map", proxy_map);

} // namespace
} // namespace pbt
