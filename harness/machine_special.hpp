// Included inside Machine<C>: proxies, standard algorithms, rejected operations, aliased arguments.

// ------------------------------------------------------------------------------------------------------- proxies
// apply one operator to a proxy and to a plain variable; both must agree on the result and on the value left behind
template <typename Ref, typename I>
void one_operator(Ref&& ref, I& x, char const* where) {
    int what = static_cast<int>(s.draw(30));
    int u = static_cast<int>(s.draw(6)) + (what == 3 || what == 4 ? 1 : 0);
    bool bit_ok = x >= 0;
    auto fits_in = [&](int64_t y) { return sizeof(I) < 4 || (y >= -4000 && y <= 4000); };
    ctx.log("    proxy operator %d with %d on %lld (%s)", what, u, (long long)x, where);
    switch (what) {
        case 0: { I r = static_cast<I>(ref = static_cast<I>(u)); x = static_cast<I>(u); PBT_CHECK(ctx, r == x, "proxy = : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 1: { if (!fits_in(x + u)) break; I r = static_cast<I>(ref += u); x = static_cast<I>(x + u); PBT_CHECK(ctx, r == x, "proxy += : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 2: { if (!fits_in(x - u)) break; I r = static_cast<I>(ref -= u); x = static_cast<I>(x - u); PBT_CHECK(ctx, r == x, "proxy -= : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 3: { I r = static_cast<I>(ref /= u); x = static_cast<I>(x / u); PBT_CHECK(ctx, r == x, "proxy /= : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 4: { I r = static_cast<I>(ref %= u); x = static_cast<I>(x % u); PBT_CHECK(ctx, r == x, "proxy %%= : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 5: { if (!fits_in(static_cast<int64_t>(x) * u)) break; I r = static_cast<I>(ref *= u); x = static_cast<I>(x * u); PBT_CHECK(ctx, r == x, "proxy *= : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 6: { if (!bit_ok) break; I r = static_cast<I>(ref ^= u); x = static_cast<I>(x ^ u); PBT_CHECK(ctx, r == x, "proxy ^= : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 7: { if (!bit_ok) break; I r = static_cast<I>(ref &= u); x = static_cast<I>(x & u); PBT_CHECK(ctx, r == x, "proxy &= : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 8: { if (!bit_ok) break; I r = static_cast<I>(ref |= u); x = static_cast<I>(x | u); PBT_CHECK(ctx, r == x, "proxy |= : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 9: { if (!bit_ok || !fits_in(static_cast<int64_t>(x) << u)) break; I r = static_cast<I>(ref <<= u); x = static_cast<I>(x << u); PBT_CHECK(ctx, r == x, "proxy <<= : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 10: { if (!bit_ok) break; I r = static_cast<I>(ref >>= u); x = static_cast<I>(x >> u); PBT_CHECK(ctx, r == x, "proxy >>= : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 11: { if (!fits_in(x + 1)) break; I r = static_cast<I>(++ref); ++x; PBT_CHECK(ctx, r == x, "++proxy : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 12: { if (!fits_in(x - 1)) break; I r = static_cast<I>(--ref); --x; PBT_CHECK(ctx, r == x, "--proxy : result %lld, expected %lld", (long long)r, (long long)x); break; }
        case 13: { if (!fits_in(x + 1)) break; I r = ref++; I e = x++; PBT_CHECK(ctx, r == e, "proxy++ : result %lld, expected %lld", (long long)r, (long long)e); break; }
        case 14: { if (!fits_in(x - 1)) break; I r = ref--; I e = x--; PBT_CHECK(ctx, r == e, "proxy-- : result %lld, expected %lld", (long long)r, (long long)e); break; }
        case 15: PBT_CHECK(ctx, (ref == u) == (x == u) && (u == ref) == (u == x), "proxy == %d is wrong for %lld", u, (long long)x); break;
        case 16: PBT_CHECK(ctx, (ref < u) == (x < u) && (u < ref) == (u < x), "proxy < %d is wrong for %lld", u, (long long)x); break;
        case 17: PBT_CHECK(ctx, (ref > u) == (x > u) && (u > ref) == (u > x), "proxy > %d is wrong for %lld", u, (long long)x); break;
        case 18: PBT_CHECK(ctx, (ref <= u) == (x <= u) && (u <= ref) == (u <= x), "proxy <= %d is wrong for %lld", u, (long long)x); break;
        case 19: PBT_CHECK(ctx, (ref >= u) == (x >= u) && (u >= ref) == (u >= x), "proxy >= %d is wrong for %lld", u, (long long)x); break;
        case 20: PBT_CHECK(ctx, (ref + u) == (x + u) && (u + ref) == (u + x), "proxy + %d is wrong for %lld", u, (long long)x); break;
        case 21: PBT_CHECK(ctx, (ref - u) == (x - u) && (u - ref) == (u - x), "proxy - %d is wrong for %lld", u, (long long)x); break;
        case 22: PBT_CHECK(ctx, (ref * u) == (x * u), "proxy * %d is wrong for %lld", u, (long long)x); break;
        case 23: PBT_CHECK(ctx, u == 0 || ((ref / u) == (x / u) && (ref % u) == (x % u)), "proxy / or %% %d is wrong for %lld", u, (long long)x); break;
        case 24: if (bit_ok) PBT_CHECK(ctx, (ref ^ u) == (x ^ u) && (ref & u) == (x & u) && (ref | u) == (x | u), "proxy bit operator is wrong for %lld and %d", (long long)x, u); break;
        case 25: if (bit_ok) PBT_CHECK(ctx, (ref << u) == (x << u) && (ref >> u) == (x >> u), "proxy shift is wrong for %lld and %d", (long long)x, u); break;
        case 26: PBT_CHECK(ctx, static_cast<I>(ref.get()) == x, "proxy get() is %lld, expected %lld", (long long)ref.get(), (long long)x); break;
        case 27: { I const& c = ref; PBT_CHECK(ctx, c == x, "proxy converts to %lld, expected %lld", (long long)c, (long long)x); break; }
        default: {
            // a chain through the result of the first assignment
            if (!fits_in(x + 2 * u)) break;
            (ref += u) += u;
            x = static_cast<I>(x + u);
            x = static_cast<I>(x + u);
        }
    }
    PBT_CHECK(ctx, static_cast<I>(ref.get()) == x, "after proxy operator %d the element is %lld, expected %lld", what, (long long)ref.get(), (long long)x);
}

// the same with an operand of another type than the element: wider, unsigned, or a fraction
template <typename U, typename Ref, typename I>
void mixed_operator(Ref&& ref, I& x, U const u, char const* where) {
    auto may = [&](auto y) {
        if constexpr (std::is_floating_point_v<decltype(y)>) return y > static_cast<double>(std::numeric_limits<I>::min()) && y < static_cast<double>(std::numeric_limits<I>::max()) && (sizeof(I) < 4 || (y >= -4000 && y <= 4000));
        else return sizeof(I) < 4 || (static_cast<int64_t>(static_cast<I>(y)) >= -4000 && static_cast<int64_t>(static_cast<I>(y)) <= 4000);
    };
    int what = static_cast<int>(s.draw(std::is_floating_point_v<U> ? 7 : 13));
    ctx.log("    proxy operator with another type of operand: %d with %.2f on %lld (%s)", what, static_cast<double>(u), (long long)x, where);
    bool bit_ok = x >= 0 && u >= 0;
#define PBT_MIXED(op) { if (!may(x op u)) break; I e = x; e op##= u; I r = static_cast<I>(ref op##= u); x = e; PBT_CHECK(ctx, r == e, "proxy " #op "= %.2f : result %lld, expected %lld", static_cast<double>(u), (long long)r, (long long)e); break; }
    switch (what) {
        case 0: PBT_MIXED(+)
        case 1: PBT_MIXED(-)
        case 2: PBT_MIXED(*)
        case 3: PBT_MIXED(/)
        case 4: if (may(u)) { ref = u; x = static_cast<I>(u); } break;
        case 5: PBT_CHECK(ctx, (ref == u) == (x == u) && (ref < u) == (x < u) && (ref > u) == (x > u) && (ref <= u) == (x <= u) && (ref >= u) == (x >= u), "comparing a proxy for %lld with %.2f is wrong", (long long)x, static_cast<double>(u)); break;
        case 6: PBT_CHECK(ctx, (ref + u) == (x + u) && (ref - u) == (x - u) && (ref * u) == (x * u) && (ref / u) == (x / u) && (u + ref) == (u + x) && (u - ref) == (u - x) && (u * ref) == (u * x) && (x == 0 || (u / ref) == (u / x)), "arithmetic on a proxy for %lld with %.2f is wrong", (long long)x, static_cast<double>(u)); break;
        default:
            if constexpr (!std::is_floating_point_v<U>) {
                switch (what) {
                    case 7: PBT_MIXED(%)
                    case 8: if (bit_ok) PBT_MIXED(^) break;
                    case 9: if (bit_ok) PBT_MIXED(&) break;
                    case 10: if (bit_ok) PBT_MIXED(|) break;
                    case 11: if (bit_ok) PBT_CHECK(ctx, (ref ^ u) == (x ^ u) && (ref & u) == (x & u) && (ref | u) == (x | u) && (u ^ ref) == (u ^ x) && (u & ref) == (u & x) && (u | ref) == (u | x) && (ref % u) == (x % u) && (x == 0 || (u % ref) == (u % x)), "bit operators on a proxy for %lld with %.2f are wrong", (long long)x, static_cast<double>(u)); break;
                    default: if (bit_ok && x < 20) PBT_CHECK(ctx, (ref << (u % 8)) == (x << (u % 8)) && (ref >> (u % 8)) == (x >> (u % 8)) && ((u % 100) << ref) == ((u % 100) << x) && (u >> ref) == (u >> x), "shifts of a proxy for %lld with %.2f are wrong", (long long)x, static_cast<double>(u));
                }
            }
    }
#undef PBT_MIXED
    PBT_CHECK(ctx, static_cast<I>(ref.get()) == x, "after an operation with %.2f through a proxy the element is %lld, expected %lld", static_cast<double>(u), (long long)ref.get(), (long long)x);
}
// on a value far from zero: operators whose result stays near it or is small
template <typename Ref, typename I>
void far_operator(Ref&& ref, I& x, char const* where) {
    int what = static_cast<int>(s.draw(10));
    int u = static_cast<int>(s.draw(6)) + 1;
    ctx.log("    proxy operator %d with %d on %lld (%s)", what, u, (long long)x, where);
    I const a = x;
    I r = x;
    switch (what) {
        case 0: r = static_cast<I>(ref /= u); x = static_cast<I>(x / u); break;
        case 1: r = static_cast<I>(ref %= u + 1000); x = static_cast<I>(x % (u + 1000)); break;
        case 2: r = static_cast<I>(a > 0 ? ref -= u : ref += u); x = static_cast<I>(a > 0 ? x - u : x + u); break;
        case 3: if (a > 0) { r = static_cast<I>(--ref); --x; } else { r = static_cast<I>(++ref); ++x; } break;
        case 4: if (a > 0) { r = ref--; PBT_CHECK(ctx, r == a, "proxy-- : result %lld, expected %lld", (long long)r, (long long)a); r = --x; } else { r = ref++; PBT_CHECK(ctx, r == a, "proxy++ : result %lld, expected %lld", (long long)r, (long long)a); r = ++x; } break;
        case 5: if (a > 0) { r = static_cast<I>(ref >>= u); x = static_cast<I>(x >> u); } break;
        case 6: if (a > 0) { r = static_cast<I>(ref &= 0xffff); x = static_cast<I>(x & 0xffff); } break;
        case 7: PBT_CHECK(ctx, (ref == a) && !(ref != a) && (ref < static_cast<I>(a - u)) == (a < static_cast<I>(a - u)) && (ref > static_cast<I>(a - u)) == (a > static_cast<I>(a - u)) && (a == ref) && ref <= a && ref >= a && (ref / u) == (a / u) && (ref % u) == (a % u), "comparing a proxy for %lld is wrong", (long long)a); break;
        case 8: { I const& c = ref; PBT_CHECK(ctx, c == x && static_cast<I>(ref.get()) == x, "proxy converts to %lld, expected %lld", (long long)c, (long long)x); break; }
        default: r = static_cast<I>(ref = static_cast<I>(a / 2)); x = static_cast<I>(a / 2);
    }
    PBT_CHECK(ctx, r == x, "result of proxy operator %d on %lld is %lld, expected %lld", what, (long long)a, (long long)r, (long long)x);
    PBT_CHECK(ctx, static_cast<I>(ref.get()) == x, "after proxy operator %d the element is %lld, expected %lld", what, (long long)ref.get(), (long long)x);
}
template <typename Ref, typename I>
void any_operator(Ref&& ref, I& x, char const* where) {
    if (static_cast<int64_t>(x) > 4000 || static_cast<int64_t>(x) < -4000) return far_operator(ref, x, where);
    static constexpr int64_t wide[] = {257, 65539, -3, 1000003, 4294967299LL, 7, -300, 128};
    static constexpr double fractions[] = {2.5, 0.5, -1.25, 3.75};
    static constexpr uint32_t uns[] = {3u, 200u, 0x80000001u, 70000u};
    switch (s.draw(6)) {
        case 3: return mixed_operator<int64_t>(ref, x, wide[s.draw(8)], where);
        case 4: return mixed_operator<double>(ref, x, fractions[s.draw(4)], where);
        case 5: return mixed_operator<uint32_t>(ref, x, uns[s.draw(4)], where);
        default: one_operator(ref, x, where);
    }
}

void op_proxy() {
    size_t i = s.draw(ts.size());
    TSlot& t = ts[i];
    Sel x{false, i};
    if (t.m.empty()) return op_push();
    ssize_t p = static_cast<ssize_t>(s.draw(t.m.size()));
    size_t up = static_cast<size_t>(p);
    seen.special = true;
    if constexpr (ordered && C::key_sub) {
        if (s.draw(3) != 0) {
            // t[key]
            Key const key = VK::key(t.m[up].k);
            size_t a = lb(t.m, t.m[up].k), b = ub(t.m, t.m[up].k);
            if (b - a != 1) return;      // which of several equal keys is meant is not specified
            p = static_cast<ssize_t>(a);
            up = a;
            ctx.log("%s[key %lld] proxy", name(x).c_str(), (long long)t.m[up].k);
            if constexpr (VK::arith && !single) {
                typename VK::Mapped y = static_cast<Mapped>(t.m[up].v);
                if (s.draw(4) == 0) {
                    Rep r = gen_rep();
                    r.k = t.m[up].k;
                    if (s.draw(2)) assign_some((*t.t)[key], VK::mapped(r));
                    else assign_some((*t.t)[key], VK::make(r));
                    y = static_cast<Mapped>(r.v);
                } else any_operator((*t.t)[key], y, "by key");
                t.m[up].v = y;
            } else if constexpr (!single) {
                Rep r = gen_rep();
                r.k = t.m[up].k;
                if (s.draw(2)) assign_some((*t.t)[key], VK::mapped(r));
                else assign_some((*t.t)[key], VK::make(r));
                t.m[up].v = r.v;
            } else {
                assign_some((*t.t)[key], VK::make(t.m[up]));
            }
            return after_edit(x, "after an operation through a key proxy");
        }
        if (s.draw(3) == 0 && t.m.size() < cap) {
            // assignment through t[key] inserts a missing key
            Rep r = gen_rep();
            size_t a = lb(t.m, r.k), b = ub(t.m, r.k);
            if (a != b) return;
            ctx.log("%s[absent key %lld] = %lld", name(x).c_str(), (long long)r.k, (long long)r.v);
            Key const key = VK::key(r.k);
            bool ok = grows(*t.t, [&] { if (s.draw(2)) assign_some((*t.t)[key], VK::mapped(r)); else assign_some((*t.t)[key], VK::make(r)); });
            forget(t);
            if (ok) t.m.insert(t.m.begin() + static_cast<ssize_t>(a), r);
            return after_edit(x, "after inserting through a key proxy");
        }
    }
    if constexpr (VK::arith && single && !ordered) {
        using I = Value;
        I y = static_cast<I>(t.m[up].v);
        bool by_index = indexed && C::idx_sub && s.draw(2);
        if (by_index) {
            if constexpr (indexed && C::idx_sub) {
                ctx.log("%s[%zd] proxy", name(x).c_str(), p);
                typename C::Size const ix = static_cast<typename C::Size>(p);
                any_operator((*t.t)[ix], y, "by index");
            }
        } else {
            bool rev = s.draw(2);
            It<T> it = make_it(*t.t, t.m, rev ? REV : FWD, p, static_cast<int>(s.draw(3)));
            if (!t.its.empty() && s.draw(2)) {
                It<T> h = t.its[s.draw(t.its.size())];
                if (h.v.index() == (rev ? 2u : 0u) && h.pos >= 0 && h.pos < sz(t.m)) { it = h; p = h.pos; up = static_cast<size_t>(p); y = static_cast<I>(t.m[up].v); }
            }
            ctx.log("*(iterator of %s at %zd) proxy", name(x).c_str(), p);
            if (rev) any_operator(*std::get<2>(it.v), y, "by reverse iterator");
            else any_operator(*std::get<0>(it.v), y, "by iterator");
            t.m[up] = {static_cast<int64_t>(y), static_cast<int64_t>(y)};
            check_it(it, t.m, "iterator after a proxy operation");
        }
        t.m[up] = {static_cast<int64_t>(y), static_cast<int64_t>(y)};
        // proxies as operands of each other
        if (s.draw(3) == 0) {
            size_t q = s.draw(t.m.size());
            auto it = t.t->begin() + p;
            auto jt = t.t->begin() + static_cast<ssize_t>(q);
            I const a = static_cast<I>(t.m[up].v), b = static_cast<I>(t.m[q].v);
            PBT_CHECK(ctx, (*it == *jt) == (a == b) && (*it < *jt) == (a < b) && (*it > *jt) == (a > b) && (*it <= *jt) == (a <= b) && (*it >= *jt) == (a >= b),
                      "comparing the proxies of elements %zd and %zu is wrong", p, q);
            PBT_CHECK(ctx, (*it + *jt) == (a + b) && (*it - *jt) == (a - b) && (a > 4000 || a < -4000 || b > 4000 || b < -4000 || (*it * *jt) == (a * b)), "arithmetic on the proxies of elements %zd and %zu is wrong", p, q);
            int const how = static_cast<int>(s.draw(3));
            if (how == 2) {
                // one proxy as the operand of a compound assignment to another, possibly to itself
                bool const minus = s.draw(2);
                int64_t const y = minus ? static_cast<int64_t>(a) - b : static_cast<int64_t>(a) + b;
                if (sizeof(I) < 4 || (y >= -4000 && y <= 4000)) {
                    ctx.log("    *it[%zd] %s= *it[%zu]", p, minus ? "-" : "+", q);
                    if (minus) *it -= *jt; else *it += *jt;
                    t.m[up].k = t.m[up].v = static_cast<I>(y);
                }
            } else if (how == 0) {
                ctx.log("    *it[%zd] = *it[%zu]", p, q);
                *it = *jt;
                t.m[up] = t.m[q];
            } else {
                ctx.log("    swap(*it[%zd], *it[%zu])", p, q);
                if (up != q) {
                    swap(*it, *jt);
                    std::swap(t.m[up], t.m[q]);
                }
            }
        }
    } else {
        // assignment of a whole element through an iterator proxy
        Rep r = gen_replacement(t.m, up);
        bool rev = s.draw(2);
        It<T> it = make_it(*t.t, t.m, rev ? REV : FWD, p, static_cast<int>(s.draw(3)));
        ctx.log("*(iterator of %s at %zd) = (%lld,%lld)", name(x).c_str(), p, (long long)r.k, (long long)r.v);
        if (indexed && C::idx_sub && s.draw(3) == 0) {
            if constexpr (indexed && C::idx_sub) {
                typename C::Size const ix = static_cast<typename C::Size>(p);
                assign_some((*t.t)[ix], VK::make(r));
            }
        } else if (rev) assign_some(*std::get<2>(it.v), VK::make(r));
        else assign_some(*std::get<0>(it.v), VK::make(r));
        t.m[up] = r;
        check_it(it, t.m, "iterator after assignment through its proxy");
    }
    after_edit(x, "after an operation through a proxy");
}

// ---------------------------------------------------------------------------------------------------- algorithms
void resync(TSlot& t, char const* what) {
    // algorithms whose result is not fully determined: must be a permutation of what was there
    Model now;
    for (auto it = t.t->cbegin(), e = t.t->cend(); it != e; ++it) now.push_back(VK::rep(*it));
    auto key = [](Model m) { std::sort(m.begin(), m.end(), [](Rep const& a, Rep const& b) { return a.v < b.v; }); return m; };
    PBT_CHECK(ctx, key(now) == key(t.m), "std::%s: the elements are no longer the same multiset", what);
    t.m = now;
}

void op_algo() {
    if constexpr (indexed && single && VK::arith && !ordered) {
        using I = Value;
        size_t i = s.draw(ts.size());
        TSlot& t = ts[i];
        Sel x{false, i};
        if (t.m.empty() || t.m.size() > 400) return op_pop();
        seen.special = true;
        ssize_t n = sz(t.m), a = s.range(0, n), b = s.range(a, n);
        if (s.draw(3) == 0) { a = 0; b = n; }
        std::vector<I> v;
        for (auto& r : t.m) v.push_back(static_cast<I>(r.v));
        T& tree = *t.t;
        auto f = [&](ssize_t p) { return s_it(tree, n, p); };
        auto tb = f(a), te = f(b);
        auto vb = v.begin() + a, ve = v.begin() + b;
        auto ct = [&](auto it) { return static_cast<ssize_t>(it - tree.begin()); };
        auto cv = [&](auto it) { return static_cast<ssize_t>(it - v.begin()); };
        int what = static_cast<int>(s.draw(37));
        static char const* names[] = {"sort", "stable_sort", "reverse", "rotate", "stable_partition", "unique", "remove", "fill", "iota", "transform",
            "replace", "next_permutation", "partial_sum", "inplace_merge", "copy", "copy_backward", "generate", "swap_ranges", "reverse sort", "for_each",
            "lower_bound", "find", "count", "accumulate", "min/max_element", "equal", "nth_element", "partition", "make_heap/sort_heap", "shuffle",
            "iter_swap", "move", "adjacent_difference", "range for", "prev_permutation", "distance/advance", "reverse_copy"};
        ctx.log("std::%s on [%zd, %zd) of %s", names[what], a, b, name(x).c_str());
        ctx.label("standard algorithms");
        I const needle = v[static_cast<size_t>(s.draw(static_cast<uint64_t>(n)))];
        bool exact = true;
        auto even = [](I const& e) { return e % 2 == 0; };
        switch (what) {
            case 0: std::sort(tb, te); std::sort(vb, ve); break;
            case 1: std::stable_sort(tb, te, [](I const& p, I const& q) { return p / 8 < q / 8; }); std::stable_sort(vb, ve, [](I const& p, I const& q) { return p / 8 < q / 8; }); break;
            case 2: std::reverse(tb, te); std::reverse(vb, ve); break;
            case 3: {
                ssize_t mid = s.range(a, b);
                ssize_t r1 = ct(std::rotate(tb, f(mid), te)), r2 = cv(std::rotate(vb, v.begin() + mid, ve));
                PBT_CHECK(ctx, r1 == r2, "std::rotate returned position %zd, expected %zd", r1, r2);
                break;
            }
            case 4: {
                ssize_t r1 = ct(std::stable_partition(tb, te, even)), r2 = cv(std::stable_partition(vb, ve, even));
                PBT_CHECK(ctx, r1 == r2, "std::stable_partition returned position %zd, expected %zd", r1, r2);
                break;
            }
            case 5: case 6: {
                // the elements after the new end are unspecified
                ssize_t r1 = what == 5 ? ct(std::unique(tb, te)) : ct(std::remove(tb, te, needle));
                ssize_t r2 = what == 5 ? cv(std::unique(vb, ve)) : cv(std::remove(vb, ve, needle));
                PBT_CHECK(ctx, r1 == r2, "std::%s returned position %zd, expected %zd", names[what], r1, r2);
                for (ssize_t q = r1; q < b; ++q) v[static_cast<size_t>(q)] = *(tree.cbegin() + q);
                break;
            }
            case 7: std::fill(tb, te, needle); std::fill(vb, ve, needle); break;
            case 8: std::iota(tb, te, static_cast<I>(3)); std::iota(vb, ve, static_cast<I>(3)); break;
            case 9: std::transform(tb, te, tb, [](I const& e) { return static_cast<I>(e / 2 + 1); }); std::transform(vb, ve, vb, [](I const& e) { return static_cast<I>(e / 2 + 1); }); break;
            case 10: std::replace(tb, te, needle, static_cast<I>(7)); std::replace(vb, ve, needle, static_cast<I>(7)); break;
            case 11: { bool r1 = std::next_permutation(tb, te), r2 = std::next_permutation(vb, ve); PBT_CHECK(ctx, r1 == r2, "std::next_permutation returned %d", r1); break; }
            case 12: if (b - a > 20) return; std::partial_sum(tb, te, tb, [](I const& p, I const& q) { return static_cast<I>(p / 2 + q / 2); }); std::partial_sum(vb, ve, vb, [](I const& p, I const& q) { return static_cast<I>(p / 2 + q / 2); }); break;
            case 13: {
                ssize_t mid = s.range(a, b);
                std::sort(tb, f(mid)); std::sort(f(mid), te); std::inplace_merge(tb, f(mid), te);
                std::sort(vb, ve);
                break;
            }
            case 14: { ssize_t to = s.range(0, a); std::copy(tb, te, f(to)); std::copy(vb, ve, v.begin() + to); break; }
            case 15: { ssize_t to = s.range(b, n); std::copy_backward(tb, te, f(to)); std::copy_backward(vb, ve, v.begin() + to); break; }
            case 16: { int c1 = 0, c2 = 0; std::generate(tb, te, [&] { return static_cast<I>(c1++ % 50); }); std::generate(vb, ve, [&] { return static_cast<I>(c2++ % 50); }); break; }
            case 17: { ssize_t len = std::min(b - a, n - b); std::swap_ranges(tb, tb + len, te); std::swap_ranges(vb, vb + len, ve); break; }
            case 18: {
                auto rb = tree.rbegin() + (n - b), re = tree.rbegin() + (n - a);
                std::sort(rb, re);
                std::sort(std::make_reverse_iterator(ve), std::make_reverse_iterator(vb));
                break;
            }
            case 19: std::for_each(tb, te, [](auto&& e) { e += 1; }); for (auto q = vb; q != ve; ++q) *q = static_cast<I>(*q + 1); break;
            case 20: {
                std::sort(tb, te); std::sort(vb, ve);
                ssize_t r1 = ct(std::lower_bound(tb, te, needle)), r2 = cv(std::lower_bound(vb, ve, needle));
                ssize_t r3 = ct(std::upper_bound(tb, te, needle)), r4 = cv(std::upper_bound(vb, ve, needle));
                PBT_CHECK(ctx, r1 == r2 && r3 == r4, "std::lower_bound/upper_bound returned %zd/%zd, expected %zd/%zd", r1, r3, r2, r4);
                break;
            }
            case 21: { ssize_t r1 = ct(std::find(tb, te, needle)), r2 = cv(std::find(vb, ve, needle)); PBT_CHECK(ctx, r1 == r2, "std::find returned %zd, expected %zd", r1, r2); break; }
            case 22: { auto r1 = std::count(tb, te, needle), r2 = std::count(vb, ve, needle); PBT_CHECK(ctx, r1 == r2, "std::count returned %zd, expected %zd", static_cast<ssize_t>(r1), static_cast<ssize_t>(r2)); break; }
            case 23: { int64_t r1 = std::accumulate(tb, te, int64_t{0}), r2 = std::accumulate(vb, ve, int64_t{0}); PBT_CHECK(ctx, r1 == r2, "std::accumulate returned %lld, expected %lld", (long long)r1, (long long)r2); break; }
            case 24: {
                ssize_t r1 = ct(std::min_element(tb, te)), r2 = cv(std::min_element(vb, ve)), r3 = ct(std::max_element(tb, te)), r4 = cv(std::max_element(vb, ve));
                PBT_CHECK(ctx, r1 == r2 && r3 == r4, "std::min_element/max_element returned %zd/%zd, expected %zd/%zd", r1, r3, r2, r4);
                break;
            }
            case 25: PBT_CHECK(ctx, std::equal(tb, te, vb, ve), "std::equal says the range differs from the model"); break;
            case 26: {
                if (a == b) return;
                ssize_t k = s.range(a, b - 1);
                std::nth_element(tb, f(k), te);
                std::vector<I> w(vb, ve);
                std::sort(w.begin(), w.end());
                I got = *f(k);
                PBT_CHECK(ctx, got == w[static_cast<size_t>(k - a)], "std::nth_element left %lld at the nth position, expected %lld", (long long)got, (long long)w[static_cast<size_t>(k - a)]);
                exact = false;
                break;
            }
            case 27: {
                ssize_t r1 = ct(std::partition(tb, te, even)), r2 = a + std::count_if(vb, ve, even);
                PBT_CHECK(ctx, r1 == r2, "std::partition returned position %zd, expected %zd", r1, r2);
                PBT_CHECK(ctx, std::is_partitioned(f(a), f(b), even), "std::partition did not partition the range");
                exact = false;
                break;
            }
            case 28: std::make_heap(tb, te); PBT_CHECK(ctx, std::is_heap(f(a), f(b)), "std::make_heap did not make a heap"); std::sort_heap(tb, te); std::sort(vb, ve); break;
            case 29: { Rng g{s.draw(1000)}; struct U { using result_type = uint64_t; Rng* g; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ULL; } uint64_t operator()() { return g->next(); } }; std::shuffle(tb, te, U{&g}); exact = false; break; }
            case 30: if (b < n && a < n) { std::iter_swap(f(a), f(b)); std::iter_swap(v.begin() + a, v.begin() + b); } break;
            case 31: { ssize_t to = s.range(0, a); std::move(tb, te, f(to)); std::move(vb, ve, v.begin() + to); break; }
            case 32: if (sizeof(I) < 4) return; std::adjacent_difference(tb, te, tb, [](I const& p, I const& q) { return static_cast<I>((p - q) / 2); }); std::adjacent_difference(vb, ve, vb, [](I const& p, I const& q) { return static_cast<I>((p - q) / 2); }); break;
            case 33: { size_t q = 0; for (auto&& e : tree) { e = static_cast<I>(q % 9); v[q] = static_cast<I>(q % 9); ++q; } break; }
            case 34: { bool r1 = std::prev_permutation(tb, te), r2 = std::prev_permutation(vb, ve); PBT_CHECK(ctx, r1 == r2, "std::prev_permutation returned %d", r1); break; }
            case 35: {
                PBT_CHECK(ctx, std::distance(tb, te) == b - a, "std::distance is %zd, expected %zd", static_cast<ssize_t>(std::distance(tb, te)), b - a);
                auto q = tb;
                std::advance(q, b - a);
                PBT_CHECK(ctx, q == te && std::next(tb, b - a) == te && std::prev(te, b - a) == tb, "std::advance/next/prev do not reach the other end of the range");
                break;
            }
            default: {
                std::vector<I> w;
                std::reverse_copy(tb, te, std::back_inserter(w));
                std::vector<I> z(std::make_reverse_iterator(ve), std::make_reverse_iterator(vb));
                PBT_CHECK(ctx, w == z, "std::reverse_copy gives a different sequence");
            }
        }
        if (exact) for (size_t q = 0; q < v.size(); ++q) t.m[q] = {static_cast<int64_t>(v[q]), static_cast<int64_t>(v[q])};
        else {
            Model old = t.m;
            resync(t, names[what]);
            for (ssize_t q = 0; q < n; ++q) if (q < a || q >= b) PBT_CHECK(ctx, t.m[static_cast<size_t>(q)] == old[static_cast<size_t>(q)], "std::%s changed element %zd outside its range", names[what], q);
        }
        after_edit(x, "after a standard algorithm");
        // every mixin query on every prefix boundary is affected by a wrong write
        for (int q = 0; q < 3; ++q) probe(*t.t, t.m, QALL);
    }
}
static auto s_it(T& tree, ssize_t n, ssize_t p) {
    if (p == n) return tree.end();
    return tree.begin() + p;
}

// ------------------------------------------------------------------------------------------------------ rejections
template <typename U>
struct Boom {
    operator U() const { throw std::runtime_error("conversion to an element fails"); }
};

template <typename E, typename F>
void must_throw(F&& f, char const* what) {
    bool threw = false;
    try {
        f();
    } catch (E const&) {
        threw = true;
    }
    PBT_CHECK(ctx, threw, "%s: no exception", what);
    seen.special = true;
    ctx.label("rejected operations");
}

void op_reject() {
    bool pers = !ps.empty() && s.draw(3) == 0;
    Sel x = pers ? Sel{true, s.draw(ps.size())} : Sel{false, s.draw(ts.size())};
    Model const& m = model(x);
    int what = static_cast<int>(s.draw(10));
    // where rejections are not the point: only edits of elements that do not exist
    if (strcmp(ctx.check, "P16") && strcmp(ctx.check, "P13")) what = 0;
    auto on = [&](auto&& ft, auto&& fp) {
        if (x.pers) { P const& c = *ps[x.i].p; fp(c); } else ft(*ts[x.i].t);
    };
    ssize_t p = m.empty() ? 0 : static_cast<ssize_t>(s.draw(m.size()));
    switch (what) {
        case 0: case 1: if constexpr (ordered && safety) {
            int64_t k = gen_key();
            if (s.draw(2) && !m.empty()) k = clampk(m[static_cast<size_t>(p)].k + 1 - 2 * static_cast<int64_t>(s.draw(2)));
            if (lb(m, k) != ub(m, k)) return;
            Rep r{k, single ? k : 5};
            Key key = VK::key(k);
            int form = static_cast<int>(s.draw(4));
            if (!C::upd_key && form == 1) form = 0;
            ctx.log("%s: %s with the missing key %lld", name(x).c_str(), form == 0 ? "erase_key" : form == 1 ? "update_key" : form == 2 ? "assign_v" : "at_key", (long long)k);
            std::vector<int64_t> none;
            bool wrong = false;
            int64_t got = 0;
            must_throw<std::logic_error>([&] {
                on([&](T& t) {
                    if (form == 0) t.erase_key(key);
                    else if (form == 1) { if constexpr (C::upd_key) t.update_key(key, UpdM{0, &none, r, &wrong, false, &got}); }
                    else if (form == 2) VK::args2(r, 0, [&](auto&&... a) { t.assign_v(std::forward<decltype(a)>(a)...); });
                    else (void)t.at_key(key);
                }, [&](P const& c) {
                    if (form == 0) (void)c.erase_key(key);
                    else if (form == 1) { if constexpr (C::upd_key) (void)c.update_key(key, UpdM{0, &none, r, &wrong, false, &got}); }
                    else if (form == 2) VK::args2(r, 0, [&](auto&&... a) { (void)c.assign_v(std::forward<decltype(a)>(a)...); });
                    else (void)c.at_key(key);
                });
            }, "operation on a missing key");
            PBT_CHECK(ctx, !wrong, "the updater was called for a missing key");
        } break;
        case 2: if constexpr (ordered && safety && C::upd_key && (single || std::is_same_v<Mapped, Value>)) {
            // the updater returns an element with a different key
            if (m.empty()) return;
            Rep r = m[static_cast<size_t>(p)];
            Key key = VK::key(r.k);
            std::vector<int64_t> cand;
            for (size_t i = lb(m, r.k); i < ub(m, r.k); ++i) cand.push_back(single ? m[i].k : m[i].v);
            r.k = r.k == VK::hi ? r.k - 1 : r.k + 1;
            if constexpr (single) r.v = r.k;
            bool wrong = false;
            int64_t got = 0;
            ctx.log("%s: update_key(%lld) with an updater that changes the key", name(x).c_str(), (long long)m[static_cast<size_t>(p)].k);
            must_throw<std::logic_error>([&] {
                on([&](T& t) { t.update_key(key, UpdM{0, &cand, r, &wrong, false, &got}); },
                   [&](P const& c) { (void)c.update_key(key, UpdM{0, &cand, r, &wrong, false, &got}); });
            }, "update_key with a mismatched key");
        } break;
        case 3: case 4: {
            if constexpr (C::noexc) return;
            // throwing updater
            if (m.empty()) return;
            bool wrong = false;
            Rep const& r = m[static_cast<size_t>(p)];
            int form = static_cast<int>(s.draw(3));
            ctx.log("%s: updater throws at %zd (form %d)", name(x).c_str(), p, form);
            auto go = [&](auto& t, auto& sl) {
                Upd u{&r, r, &wrong, true};
                if (form == 0) {
                    auto it = gen_it(t, sl.m, p);
                    std::visit([&](auto& i) { if constexpr (std::is_same_v<std::decay_t<decltype(t)>, T>) t.update(i, u); else (void)std::as_const(t).update(i, u); }, it.v);
                    return;
                }
                if constexpr (indexed) if (form == 1) {
                    if constexpr (std::is_same_v<std::decay_t<decltype(t)>, T>) t.update_index(static_cast<typename C::Size>(p), u); else (void)std::as_const(t).update_index(static_cast<typename C::Size>(p), u);
                    return;
                }
                if constexpr (ordered && C::upd_key) {
                    std::vector<int64_t> cand;
                    int64_t got = 0;
                    for (size_t i = lb(m, r.k); i < ub(m, r.k); ++i) cand.push_back(single ? m[i].k : m[i].v);
                    Key key = VK::key(r.k);
                    UpdM um{0, &cand, r, &wrong, true, &got};
                    if constexpr (std::is_same_v<std::decay_t<decltype(t)>, T>) t.update_key(key, um); else (void)std::as_const(t).update_key(key, um);
                    return;
                }
                throw std::runtime_error("form does not apply");
            };
            must_throw<std::runtime_error>([&] { if (x.pers) go(*ps[x.i].p, ps[x.i]); else go(*ts[x.i].t, ts[x.i]); }, "throwing updater");
            PBT_CHECK(ctx, !wrong, "the updater was given the wrong element");
        } break;
        case 5: case 6: if constexpr (!C::noexc && VK::boom) {
            // construction of the new element throws
            int form = static_cast<int>(s.draw(6));
            using B = Boom<typename VK::BoomTo>;
            ctx.log("%s: constructing the new element throws (form %d at %zd)", name(x).c_str(), form, p);
            auto go = [&](auto& t, auto& sl) {
                constexpr bool is_t = std::is_same_v<std::decay_t<decltype(t)>, T>;
                Rep r = gen_rep();
                if (ordered && !m.empty() && s.draw(2)) r.k = m[static_cast<size_t>(p)].k;
                VK::boom_args(r, B{}, [&](auto&&... a) {
                    if constexpr (is_t) {
                        switch (form) {
                            case 0: t.push_back(a...); return;
                            case 1: t.push_front(a...); return;
                            case 2: { auto it = t.begin(); if (!m.empty()) it += p; t.insert(it, a...); return; }
                            case 3: if (!m.empty()) { auto it = t.begin() + p; t.assign(it, a...); return; } break;
                            default:
                                if constexpr (indexed) if (form == 4) { if (m.empty() || s.draw(2)) t.insert_index(static_cast<typename C::Size>(p), a...); else t.assign_index(static_cast<typename C::Size>(p), a...); return; }
                                if constexpr (ordered) if constexpr (sizeof...(a) == 2) {
                                    if (lb(m, r.k) == ub(m, r.k) && s.draw(2)) t.insert_v(a...); else t.insert_or_assign(a...);
                                    return;
                                }
                        }
                    } else {
                        auto const& c = t;
                        switch (form) {
                            case 0: (void)c.push_back(a...); return;
                            case 1: (void)c.push_front(a...); return;
                            case 2: { auto it = c.begin(); if (!m.empty()) it += p; (void)c.insert(it, a...); return; }
                            case 3: if (!m.empty()) { auto it = c.begin() + p; (void)c.assign(it, a...); return; } break;
                            default:
                                if constexpr (indexed) if (form == 4) { (void)c.insert_index(static_cast<typename C::Size>(p), a...); return; }
                                if constexpr (ordered) if constexpr (sizeof...(a) == 2) { (void)c.insert_or_assign(a...); return; }
                        }
                    }
                    (void)sl;
                    throw std::runtime_error("form does not apply");
                });
            };
            bool depth_limited = false;
            if constexpr (safety) depth_limited = x.pers ? ps[x.i].p->depth() == ps[x.i].p->max_depth() : ts[x.i].t->depth() == ts[x.i].t->max_depth();
            auto call = [&] { if (x.pers) go(*ps[x.i].p, ps[x.i]); else go(*ts[x.i].t, ts[x.i]); };
            // at the depth limit the insertion may be refused before the element is constructed
            if (depth_limited) must_throw<std::exception>(call, "throwing element construction at the depth limit");
            else must_throw<std::runtime_error>(call, "throwing element construction");
        } break;
        case 7: if constexpr ((minned || maxed) && safety) {
            // extremum of an empty tree or range
            bool fwd = s.draw(2), inverted = s.draw(2);
            ssize_t n = sz(m);
            ssize_t a = s.range(0, n), b = inverted ? s.range(0, a) : a;
            int form = static_cast<int>(s.draw(4));
            ctx.log("%s: extremum of the empty range [%zd, %zd), %s", name(x).c_str(), a, b, fwd ? "forward" : "reverse");
            auto go = [&](auto& t) {
                auto q = [&](auto const& i, auto const& j) {
                    if constexpr (minned) { if (!maxed || s.draw(2)) { if (form < 2) (void)std::as_const(t).min(i, j); else if (form == 2) (void)t.min_element(i, j); else (void)t.min_element_const(i, j); return; } }
                    if constexpr (maxed) { if (form < 2) (void)std::as_const(t).max(i, j); else if (form == 2) (void)t.max_element(i, j); else (void)t.max_element_const(i, j); }
                };
                if (n == 0 && s.draw(2)) {
                    if constexpr (minned) { if (form < 2) (void)t.min(); else (void)t.min_element(); }
                    else { if (form < 2) (void)t.max(); else (void)t.max_element(); }
                    return;
                }
                if (fwd) q(s_fwd(t, n, a), s_fwd(t, n, b));
                else q(s_rev(t, n, n - 1 - a), s_rev(t, n, n - 1 - b));
            };
            must_throw<std::out_of_range>([&] { if (x.pers) go(*ps[x.i].p); else go(*ts[x.i].t); }, "extremum of an empty range");
        } break;
        case 8: if constexpr (safety) {
            // iterators of different trees cannot be ordered; they are never equal
            Sel y{false, s.draw(ts.size())};
            if (x.pers || y.i == x.i) return;
            ctx.log("comparing iterators of T%zu and T%zu", x.i, y.i);
            auto i = ts[x.i].t->begin();
            auto j = ts[y.i].t->begin();
            must_throw<std::logic_error>([&] { (void)(i < j); }, "operator< on iterators of different trees");
            must_throw<std::logic_error>([&] { (void)(j >= i); }, "operator>= on iterators of different trees");
            PBT_CHECK(ctx, !(i == j) && i != j, "iterators of different trees compare equal");
        } break;
        default: if constexpr (ordered && safety && C::key_sub && !single) {
            if (x.pers || m.empty()) return;
            Rep r = m[static_cast<size_t>(p)];
            Key const key = VK::key(r.k);
            r.k = r.k == VK::hi ? r.k - 1 : r.k + 1;
            ctx.log("%s[key %lld] = element with key %lld", name(x).c_str(), (long long)m[static_cast<size_t>(p)].k, (long long)r.k);
            T& t = *ts[x.i].t;
            Value v = VK::make(r);
            Value const& cv = v;
            int form = static_cast<int>(s.draw(3));
            must_throw<std::logic_error>([&] { if (form == 0) t[key] = v; else if (form == 1) t[key] = cv; else t[key] = VK::make(r); }, "assigning an element with another key through operator[]");
        }
    }
    audit(x, "after a rejected operation");
    audit_all("after a rejected operation");
}
template <typename Tr>
static auto s_fwd(Tr& t, ssize_t n, ssize_t p) { auto e = t.cend(); return p == n ? e : t.cbegin() + p; }
template <typename Tr>
static auto s_rev(Tr& t, ssize_t n, ssize_t p) { auto e = t.crend(); return p < 0 ? e : t.crbegin() + (n - 1 - p); }

// -------------------------------------------------------------------------------------------------------- aliases
void op_alias() {
    Sel x = pick_target();
    Model const& m0 = model(x);
    if (m0.empty()) return op_push();
    if (m0.size() >= cap) return op_pop();
    seen.special = true;
    size_t q = s.draw(m0.size());
    size_t p = s.draw(m0.size());
    int src_form = static_cast<int>(s.draw(4));
    Rep src = src_form == 0 ? m0.front() : src_form == 1 ? m0.back() : m0[q];
    if (src_form == 0) q = 0;
    if (src_form == 1) q = m0.size() - 1;
    auto source = [&](auto const& t) -> Value const& {
        if (src_form == 0) return t.front();
        if (src_form == 1) return t.back();
        if constexpr (indexed) if (src_form == 2) return t.at_index(static_cast<typename C::Size>(q));
        return (t.cbegin() + static_cast<ssize_t>(q)).get();
    };
    bool ok = true;
    Model m = m0;
    std::optional<P> made;
    auto on = [&](auto&& f) {
        ok = x.pers ? grows(*ps[x.i].p, [&] { f(std::as_const(*ps[x.i].p), [&](auto&& r) { made.emplace(std::move(r)); }); })
                    : grows(*ts[x.i].t, [&] { f(*ts[x.i].t, 0); });
    };
    // f is called as f(tree, sink): a persistent edit hands its result to sink, a transient edit returns void
#define PBT_EDIT(call) if constexpr (std::is_same_v<std::decay_t<decltype(t)>, T>) { (void)sink; t.call; } else sink(t.call)
    int what = static_cast<int>(s.draw(8));
    if constexpr (!ordered) {
        switch (what) {
            case 0: on([&](auto& t, auto sink) { PBT_EDIT(push_back(source(t))); }); m.push_back(src); break;
            case 1: on([&](auto& t, auto sink) { PBT_EDIT(push_front(source(t))); }); m.insert(m.begin(), src); break;
            case 2: on([&](auto& t, auto sink) { auto it = t.begin() + static_cast<ssize_t>(p); PBT_EDIT(insert(it, source(t))); }); m.insert(m.begin() + static_cast<ssize_t>(p), src); break;
            case 3: on([&](auto& t, auto sink) { auto it = t.begin() + static_cast<ssize_t>(p); PBT_EDIT(assign(it, source(t))); }); m[p] = src; break;
            case 4: case 5: if constexpr (indexed) {
                if (what == 4) { on([&](auto& t, auto sink) { PBT_EDIT(insert_index(static_cast<typename C::Size>(p), source(t))); }); m.insert(m.begin() + static_cast<ssize_t>(p), src); }
                else { on([&](auto& t, auto sink) { PBT_EDIT(assign_index(static_cast<typename C::Size>(p), source(t))); }); m[p] = src; }
                break;
            } else return;
            case 6: {
                // the updater returns a reference to another element
                on([&](auto& t, auto sink) {
                    auto it = t.begin() + static_cast<ssize_t>(p);
                    Value const& ref = source(t);
                    PBT_EDIT(update(it, [&ref](Value const&) -> Value const& { return ref; }));
                });
                m[p] = src;
                break;
            }
            default: {
                if (x.pers) return;
                // through proxies
                T& t = *ts[x.i].t;
                auto it = t.begin() + static_cast<ssize_t>(p);
                *it = source(t);
                m[p] = src;
            }
        }
        ctx.log("%s: edit %d at %zu with a reference to element %zu", name(x).c_str(), what, p, q);
    } else {
        ctx.log("%s: edit %d by key with a reference to element %zu", name(x).c_str(), what, q);
        size_t a = lb(m0, src.k), b = ub(m0, src.k);
        if (b - a != 1) return;
        switch (what) {
            case 0: case 1: on([&](auto& t, auto sink) { PBT_EDIT(insert_or_assign(source(t))); }); break;
            case 2: on([&](auto& t, auto sink) { PBT_EDIT(insert_v(source(t))); }); break;
            case 3: on([&](auto& t, auto sink) { PBT_EDIT(assign_v(source(t))); }); break;
            case 4: {
                seen.erased = true;
                on([&](auto& t, auto sink) { PBT_EDIT(erase_key(VK::key_of(source(t)))); });
                m.erase(m.begin() + static_cast<ssize_t>(a));
                break;
            }
            case 5: {
                // insert next to itself: a copy of the element itself as duplicate
                if (!dups) return;
                on([&](auto& t, auto sink) { auto it = t.begin() + static_cast<ssize_t>(q); PBT_EDIT(insert(it, source(t))); });
                m.insert(m.begin() + static_cast<ssize_t>(q), src);
                break;
            }
            default: {
                if constexpr (VK::two_arg) {
                    // key from one element, mapped value from another
                    size_t o = s.draw(m0.size());
                    auto mapped_of = [&](auto const& t) -> Mapped const& { return (t.cbegin() + static_cast<ssize_t>(o)).get().second; };
                    if (what == 6) on([&](auto& t, auto sink) { PBT_EDIT(insert_or_assign(source(t).first, mapped_of(t))); });
                    else on([&](auto& t, auto sink) { PBT_EDIT(assign_v(source(t).first, mapped_of(t))); });
                    m[a].v = m0[o].v;
                } else {
                    on([&](auto& t, auto sink) { auto it = t.begin() + static_cast<ssize_t>(q); PBT_EDIT(assign(it, source(t))); });
                }
            }
        }
    }
#undef PBT_EDIT
    if (!x.pers) {
        TSlot& t = ts[x.i];
        forget(t);
        if (ok) t.m = std::move(m);
        after_edit(x, "after an edit with an aliased argument");
        for (int i = 0; i < 2; ++i) probe(*ts[x.i].t, ts[x.i].m, QALL);
    } else {
        audit(x, "original after a persistent edit with an aliased argument", false);
        if (ok) finish_p(std::move(*made), std::move(m), "after a persistent edit with an aliased argument");
    }
}
