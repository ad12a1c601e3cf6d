// Property-based testing engine: choice sequences, units, oracles, labels.
//
// A test case is a pure function of a finite sequence of bounded choices.  In generation mode the choices come from a
// PRNG seeded from (VERIF_SEED, check, unit, case number); in replay and shrinking mode they come from a list.  The
// shrinker (engine.cpp) edits the list, so every unit shrinks and replays without code of its own.
#pragma once

#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <new>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

// harness bookkeeping is kept out of the heap ledger (memhook.cpp), which counts operator new
template <typename X>
struct MallocAlloc {
    using value_type = X;
    MallocAlloc() = default;
    template <typename Y>
    MallocAlloc(MallocAlloc<Y> const&) {}
    X* allocate(size_t n) {
        void* p = std::malloc(n * sizeof(X));
        if (!p) throw std::bad_alloc();
        return static_cast<X*>(p);
    }
    void deallocate(X* p, size_t) { std::free(p); }
    friend bool operator==(MallocAlloc const&, MallocAlloc const&) { return true; }
    friend bool operator!=(MallocAlloc const&, MallocAlloc const&) { return false; }
};
template <typename X>
using MVec = std::vector<X, MallocAlloc<X>>;
struct CStrLess {
    bool operator()(char const* a, char const* b) const { return std::strcmp(a, b) < 0; }
};
using Labels = std::map<char const*, uint64_t, CStrLess, MallocAlloc<std::pair<char const* const, uint64_t>>>;

struct Span {
    uint32_t begin, end, level;
};

// thrown by an oracle: the property under check does not hold
struct Violation : std::runtime_error {
    using std::runtime_error::runtime_error;
};

// mirror choices and spans into shared memory while a case is retried, so that they survive a crash
extern void (*choice_sink)(uint32_t);
extern void (*span_sink)(Span const&);

class Src {
    bool replaying;
    uint64_t state = 0;
    std::vector<uint32_t> input;
    MVec<uint32_t> used;
    MVec<Span> spans;
    MVec<uint32_t> open;
    uint32_t forced_left = 0;
    bool mirrored = true;     // false: a source that is not the one of the case (threads)

    uint64_t rng() {
        state += 0x9e3779b97f4a7c15ULL;
        return mix64(state);
    }

public:
    static constexpr size_t max_choices = 1u << 20;

    explicit Src(uint64_t seed, bool mirrored = true) : replaying(false), state(seed), mirrored(mirrored) {}
    explicit Src(std::vector<uint32_t> choices) : replaying(true), input(std::move(choices)) {}

    // uniform in [0, n)
    uint32_t draw(uint64_t n) {
        uint32_t v = 0;
        if (n > 1) {
            if (replaying) {
                v = used.size() < input.size() ? input[used.size()] : 0;
                if (v >= n) v = static_cast<uint32_t>(v % n);
            } else {
                v = static_cast<uint32_t>((static_cast<unsigned __int128>(rng()) * n) >> 64);
            }
        }
        used.push_back(v);
        if (choice_sink && mirrored) choice_sink(v);
        return v;
    }

    // a choice whose generated value is decided by the caller (f), but which can be edited by the shrinker
    template <typename F>
    uint32_t draw_with(uint64_t n, F&& f) {
        uint32_t v;
        if (replaying) {
            v = used.size() < input.size() ? input[used.size()] : 0;
            if (v >= n) v = static_cast<uint32_t>(v % n);
        } else {
            v = f(rng());
        }
        used.push_back(v);
        if (choice_sink && mirrored) choice_sink(v);
        return v;
    }

    bool chance(uint32_t num, uint32_t den) {
        // 0 means false so that the shrinker prefers it
        return draw(den) >= den - num;
    }

    long range(long lo, long hi) {
        if (hi <= lo) return lo;
        return lo + static_cast<long>(draw(static_cast<uint64_t>(hi - lo + 1)));
    }

    // lower values are more likely; used for run lengths
    uint32_t skewed(uint32_t n) {
        if (n <= 1) return draw(1);
        return draw_with(n, [n](uint64_t r) {
            double u = static_cast<double>(r >> 11) * (1.0 / 9007199254740992.0);
            return static_cast<uint32_t>(u * u * u * n);
        });
    }

    // index into w, weighted; every weight 0 -> 0
    size_t weighted(int const* w, size_t n) {
        uint64_t total = 0;
        for (size_t i = 0; i < n; ++i) total += static_cast<uint64_t>(w[i]);
        uint32_t r = draw_with(n, [&](uint64_t x) -> uint32_t {
            if (total == 0) return 0;
            uint64_t t = static_cast<uint64_t>((static_cast<unsigned __int128>(x) * total) >> 64);
            for (size_t i = 0; i < n; ++i) {
                if (t < static_cast<uint64_t>(w[i])) return static_cast<uint32_t>(i);
                t -= static_cast<uint64_t>(w[i]);
            }
            return 0;
        });
        // a replayed or edited choice may name a disabled entry: take the next enabled one
        for (size_t i = 0; i < n; ++i) {
            size_t j = (r + i) % n;
            if (w[j] > 0) return j;
        }
        return r;
    }

    void set_steps(uint32_t n) { forced_left = n; }

    // one choice in front of every step: 0 ends the case
    bool more() {
        if (used.size() >= max_choices) return false;
        uint32_t v = draw_with(2, [this](uint64_t) -> uint32_t { return forced_left > 0 ? 1 : 0; });
        if (forced_left > 0) --forced_left;
        return v != 0;
    }

    void open_span() { open.push_back(static_cast<uint32_t>(used.size())); }
    void close_span() {
        if (open.empty()) return;
        uint32_t b = open.back();
        open.pop_back();
        spans.push_back({b, static_cast<uint32_t>(used.size()), static_cast<uint32_t>(open.size())});
        if (span_sink && mirrored) span_sink(spans.back());
    }
    struct Scope {
        Src& s;
        explicit Scope(Src& s) : s(s) { s.open_span(); }
        ~Scope() { s.close_span(); }
    };

    MVec<uint32_t> const& choices() const { return used; }
    MVec<Span> const& all_spans() const { return spans; }
    uint64_t hash() const {
        uint64_t h = used.size();
        for (uint32_t v : used) h = mix64(h ^ v);
        return h;
    }
};

// what a unit sees while it runs a case
struct Ctx {
    char const* check = "";
    bool verbose = false;
    int trace_fd = -1;
    bool nontrivial = false;
    uint64_t ops = 0;
    uint64_t oracle_evals = 0;
    Labels labels;   // keys are string literals

    void label(char const* name, uint64_t n = 1) { labels[name] += n; }
    void log(char const* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(char const* fmt, ...) __attribute__((format(printf, 2, 3)));
};

using UnitFn = void (*)(Src&, Ctx&);

struct Unit {
    char const* name;
    UnitFn fn;
};

std::vector<Unit>& registry();

struct Register {
    Register(char const* name, UnitFn fn) { registry().push_back({name, fn}); }
};

// allocation accounting (memhook.cpp)
struct MemStats {
    int64_t live_blocks, live_bytes;
    uint64_t allocs, frees;
    size_t max_block;
};
MemStats mem_stats();
void mem_reset_window();   // allocs = frees = 0, max_block = 0

} // namespace pbt

#define PBT_CHECK(ctx, cond, ...)                 \
    do {                                          \
        ++(ctx).oracle_evals;                     \
        if (!(cond)) (ctx).fail(__VA_ARGS__);     \
    } while (0)
