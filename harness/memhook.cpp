// Replaces global operator new/delete to count blocks and bytes.  Single threaded units only: with PBT_MT nothing is replaced.
#include <cstdlib>
#include <malloc.h>
#include <new>
#include "engine.hpp"

#ifdef PBT_MT
namespace pbt {
MemStats mem_stats() { return {}; }
void mem_reset_window() {}
}
#else
namespace {
pbt::MemStats g{};
void* take(size_t n, size_t align) {
    void* p = nullptr;
    if (align > alignof(std::max_align_t)) {
        if (posix_memalign(&p, align, n ? n : 1) != 0) p = nullptr;
    } else {
        p = std::malloc(n ? n : 1);
    }
    if (!p) throw std::bad_alloc();
    ++g.live_blocks;
    ++g.allocs;
    g.live_bytes += static_cast<int64_t>(malloc_usable_size(p));
    if (n > g.max_block) g.max_block = n;
    return p;
}
void give(void* p) noexcept {
    if (!p) return;
    --g.live_blocks;
    ++g.frees;
    g.live_bytes -= static_cast<int64_t>(malloc_usable_size(p));
    std::free(p);
}
}
namespace pbt {
MemStats mem_stats() { return {g.live_blocks, g.live_bytes, g.allocs, g.frees, g.max_block}; }
void mem_reset_window() { g.allocs = 0; g.frees = 0; g.max_block = 0; }
}
void* operator new(size_t n) { return take(n, 0); }
void* operator new[](size_t n) { return take(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return take(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, static_cast<size_t>(a)); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { try { return take(n, 0); } catch (...) { return nullptr; } }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { try { return take(n, 0); } catch (...) { return nullptr; } }
void operator delete(void* p, std::nothrow_t const&) noexcept { give(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { give(p); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }
#endif

// executed basic blocks of translation units compiled with -fsanitize-coverage=trace-pc (cost_tu.cpp)
extern "C" {
uint64_t pbt_steps = 0;
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc() { ++pbt_steps; }
}
