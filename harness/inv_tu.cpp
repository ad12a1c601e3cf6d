// P19: the inverted index of examples/inverted_index.hpp against std::map<term, std::set<document>>.
//
// Two known findings (known-findings.txt, inv_finding_*.cpp) are kept out of the histories:
//  * inserting a term greater than every term of the index dereferences the end of the term list, so every index is given a
//    greatest term without documents, `sentinel`, directly in its term list;
//  * Persistent::insert and the lookup by term do not compile, so the first is written out with transient() and
//    persistent(), and the second with find(); the two halves are not friends of each other, so this file is compiled with
//    -fno-access-control.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "inverted_index.hpp"
#include "values.hpp"

namespace pbt {
namespace {

struct TermInt {
    using Term = uint32_t;
    static Term make(uint32_t i) { return i <= 200 ? i * 21000000u : i; }      // over all of the range
};
struct TermStr {
    using Term = std::string;
    static Term make(uint32_t i) { return enc('t', i); }
};

template <typename K, size_t leaf, size_t internal, size_t depth>
struct Inv {
    using Term = typename K::Term;
    using Index = InvertedIndex<Term, leaf, internal, depth>;
    using T = typename Index::Transient;
    using P = typename Index::Persistent;
    using Model = std::map<uint32_t, std::set<uint32_t>>;

    struct TS { std::unique_ptr<T> x; Model m; };
    struct PS { std::unique_ptr<P> x; Model m; };

    Src& s;
    Ctx& ctx;
    uint32_t terms = 1, docs = 1, dmul = 1, dadd = 0;
    uint32_t id(uint32_t doc) const { return dadd + dmul * doc; }
    std::vector<TS> ts;
    std::vector<PS> ps;
    bool deep = false, versioned = false;

    static constexpr uint32_t sentinel = UINT32_MAX;
    static void add_sentinel(T& t) {
        if (t.term_list().empty()) {
            const_cast<typename Index::TermList::Transient&>(t.term_list()).insert_or_assign(K::make(sentinel), 0u);
        }
    }
    template <typename X>
    void term_docs(X const& x, std::set<uint32_t> const& want, uint32_t term, bool by_lower_bound) {
        auto check = [&](auto const& range) {
            auto it = range.first;
            size_t i = 0;
            for (uint32_t d : want) {
                PBT_CHECK(ctx, it != range.second, "term %u: %zu of %zu documents are reported", term, i, want.size());
                PBT_CHECK(ctx, *it == d, "term %u: document %zu of %zu is %u, expected %u", term, i, want.size(), *it, d);
                ++it;
                ++i;
            }
            PBT_CHECK(ctx, it == range.second, "term %u: more than its %zu documents are reported", term, want.size());
        };
        auto it = by_lower_bound ? x.term_list().lower_bound(K::make(term)) : x.term_list().find(K::make(term));
        if (want.empty()) {
            if (by_lower_bound) PBT_CHECK(ctx, it == x.term_list().end() || it->first != K::make(term), "term %u is in the term list", term);
            else PBT_CHECK(ctx, it == x.term_list().end(), "term %u is in the term list", term);
            return;
        }
        PBT_CHECK(ctx, it.valid() && it->first == K::make(term), "term %u is not in the term list", term);
        check(x.term_doc_iterator(it));
    }
    template <typename X>
    void audit(X const& x, Model const& m, char const* what) {
        auto const& tl = x.term_list();
        bool const extra = !tl.empty();
        PBT_CHECK(ctx, tl.size() == m.size() + extra, "%s: the term list holds %zu terms, expected %zu", what, tl.size(), m.size() + extra);
        auto it = tl.begin();
        uint64_t total = 0;
        for (auto& [t, d] : m) {
            PBT_CHECK(ctx, it != tl.end(), "%s: the term list ends early", what);
            PBT_CHECK(ctx, it->first == K::make(t), "%s: the term list does not hold term %u where it should be", what, t);
            PBT_CHECK(ctx, it->second == d.size(), "%s: term %u has the count %u, expected %zu", what, t, it->second, d.size());
            auto range = x.term_doc_iterator(it);
            auto a = range.first;
            for (uint32_t doc : d) {
                PBT_CHECK(ctx, a != range.second && *a == doc, "%s: the documents of term %u are not the %zu that were added", what, t, d.size());
                ++a;
            }
            PBT_CHECK(ctx, a == range.second, "%s: term %u has more than its %zu documents", what, t, d.size());
            total += d.size();
            ++it;
        }
        if (extra) {
            PBT_CHECK(ctx, it != tl.end() && it->first == K::make(sentinel) && it->second == 0, "%s: the term list does not end with the term without documents", what);
            ++it;
        }
        PBT_CHECK(ctx, it == tl.end(), "%s: the term list has more than %zu terms", what, m.size());
        PBT_CHECK(ctx, tl.sum() == total, "%s: the counts of all terms sum to %u, expected %llu", what, static_cast<uint32_t>(tl.sum()), (unsigned long long)total);
        if (tl.depth() > 1) deep = true;
    }
    template <typename X>
    void query(X const& x, Model const& m) {
        uint32_t t = s.draw(terms + 1);
        auto it = m.find(t);
        static std::set<uint32_t> const none;
        term_docs(x, it == m.end() ? none : it->second, t, s.draw(2));
    }
    size_t total(Model const& m) const {
        size_t n = 0;
        for (auto& [t, d] : m) n += d.size();
        return n;
    }
    void keep(P&& p, Model m) {
        PS n{std::make_unique<P>(std::move(p)), std::move(m)};
        if (ps.size() < 6) ps.push_back(std::move(n));
        else ps[s.draw(ps.size())] = std::move(n);
    }
    void insert(T& t, uint32_t term, uint32_t doc) {
        add_sentinel(t);
        auto const key = K::make(term);
        if (s.draw(2)) t.insert(key, doc);
        else t.insert(K::make(term), doc);
    }
    void run() {
        static constexpr uint32_t nt[] = {2, 6, 30, 200}, nd[] = {2, 10, 100, 100000};
        terms = nt[s.draw(4)];
        docs = nd[s.draw(4)];
        switch (s.draw(4)) {
            case 2: dmul = UINT32_MAX / docs; break;
            case 3: dadd = UINT32_MAX - docs; break;
            default: break;
        }
        ts.resize(1 + s.draw(2));
        for (auto& t : ts) t.x = std::make_unique<T>();
        if (s.draw(2)) ps.push_back({std::make_unique<P>(), {}});
        ctx.log("%s terms, %zu/%zu byte nodes, terms below %u, documents %u + %u * 0..%u", std::is_integral_v<Term> ? "integer" : "string", leaf, internal, terms, dadd, dmul, docs);
        s.set_steps(3 + s.skewed(120) + s.draw(30));
        static constexpr size_t limit = 500;
        int const w[] = {10, 6, 4, 4, 3, 2, 2, 6, 2, 1};
        while (s.more()) {
            Src::Scope sc(s);
            ++ctx.ops;
            size_t op = s.weighted(w, 10);
            size_t i = s.draw(ts.size());
            switch (op) {
                case 0: {
                    if (total(ts[i].m) >= limit) break;
                    uint32_t term = s.draw(terms), doc = id(s.draw(docs));
                    ctx.log("T%zu.insert(%u, %u)", i, term, doc);
                    insert(*ts[i].x, term, doc);
                    ts[i].m[term].insert(doc);
                    ctx.label("insert into transient");
                    if (total(ts[i].m) < 40 || s.draw(4) == 0) audit(*ts[i].x, ts[i].m, "after insert");
                    term_docs(*ts[i].x, ts[i].m[term], term, s.draw(2));
                    break;
                }
                case 1: {
                    // runs: ascending or descending terms or documents, documents of one term, random
                    uint32_t n = 1 + s.draw(40), term = s.draw(terms), doc = s.draw(docs), pattern = s.draw(5);
                    ctx.log("T%zu.insert of %u pairs from (%u, %u), pattern %u", i, n, term, doc, pattern);
                    uint64_t g = term * 7919u + doc;
                    for (uint32_t q = 0; q < n && total(ts[i].m) < limit; ++q) {
                        uint32_t t = term, d = doc;
                        switch (pattern) {
                            case 0: t = (term + q) % terms; break;
                            case 1: t = (term + terms - q % terms) % terms; break;
                            case 2: d = (doc + q) % docs; break;
                            case 3: d = (doc + docs - q % docs) % docs; break;
                            default: g = mix64(g); t = static_cast<uint32_t>(g % terms); d = static_cast<uint32_t>((g >> 32) % docs);
                        }
                        insert(*ts[i].x, t, id(d));
                        ts[i].m[t].insert(id(d));
                    }
                    ctx.label("runs of inserts into transient");
                    audit(*ts[i].x, ts[i].m, "after a run of inserts");
                    break;
                }
                case 2: {
                    if (ps.empty()) break;
                    size_t j = s.draw(ps.size());
                    if (total(ps[j].m) >= limit) break;
                    uint32_t term = s.draw(terms), doc = id(s.draw(docs));
                    ctx.log("P%zu.insert(%u, %u)", j, term, doc);
                    P const& c = *ps[j].x;
                    T between = c.transient();
                    insert(between, term, doc);
                    P q = s.draw(2) ? std::move(between).persistent() : between.persistent();
                    Model m = ps[j].m;
                    m[term].insert(doc);
                    audit(q, m, "persistent insert");
                    audit(c, ps[j].m, "original of a persistent insert");
                    versioned = true;
                    ctx.label("insert into persistent");
                    keep(std::move(q), std::move(m));
                    break;
                }
                case 3: {
                    ctx.log("T%zu.persistent()", i);
                    keep(ts[i].x->persistent(), ts[i].m);
                    versioned = true;
                    audit(*ts[i].x, ts[i].m, "transient after persistent()");
                    break;
                }
                case 4: {
                    if (ps.empty()) break;
                    size_t j = s.draw(ps.size());
                    ctx.log("T%zu = P%zu.transient()", i, j);
                    P const& c = *ps[j].x;
                    ts[i].x = std::make_unique<T>(c.transient());
                    ts[i].m = ps[j].m;
                    audit(*ts[i].x, ts[i].m, "after transient()");
                    break;
                }
                case 5: {
                    ctx.log("move(T%zu).persistent()", i);
                    keep(std::move(*ts[i].x).persistent(), std::move(ts[i].m));
                    ts[i].x = std::make_unique<T>();
                    ts[i].m = {};
                    break;
                }
                case 6: {
                    if (ps.empty()) break;
                    size_t j = s.draw(ps.size());
                    ctx.log("T%zu = move(P%zu).transient()", i, j);
                    ts[i].x = std::make_unique<T>(std::move(*ps[j].x).transient());
                    ts[i].m = std::move(ps[j].m);
                    ps.erase(ps.begin() + static_cast<long>(j));
                    audit(*ts[i].x, ts[i].m, "after transient() &&");
                    break;
                }
                case 7:
                    if (!ps.empty() && s.draw(2)) {
                        size_t j = s.draw(ps.size());
                        query(*ps[j].x, ps[j].m);
                    } else {
                        query(*ts[i].x, ts[i].m);
                    }
                    ctx.label("queries");
                    break;
                case 8: {
                    if (ps.empty()) break;
                    size_t j = s.draw(ps.size());
                    ctx.log("copy of P%zu", j);
                    P q(*ps[j].x);
                    keep(std::move(q), ps[j].m);
                    break;
                }
                default: {
                    size_t k = s.draw(ts.size());
                    if (k == i) break;
                    ctx.log("T%zu = copy of T%zu", k, i);
                    ts[k].x = std::make_unique<T>(*ts[i].x);
                    ts[k].m = ts[i].m;
                }
            }
            if (!ps.empty() && s.draw(4) == 0) {
                size_t j = s.draw(ps.size());
                audit(*ps[j].x, ps[j].m, "another version");
            }
        }
        for (auto& t : ts) audit(*t.x, t.m, "transient at the end");
        for (auto& p : ps) audit(*p.x, p.m, "persistent version at the end");
        ctx.nontrivial = deep && versioned;
    }
    static void unit(Src& s, Ctx& ctx) {
        Inv x{s, ctx};
        x.run();
    }
};

static Register r0("index-int-tiny", &Inv<TermInt, 40, 120, 8>::unit);
static Register r1("index-int-small", &Inv<TermInt, 88, 200, 7>::unit);
static Register r2("index-int-512", &Inv<TermInt, 512, 512, 5>::unit);
static Register r3("index-string", &Inv<TermStr, 168, 400, 7>::unit);
}
}
