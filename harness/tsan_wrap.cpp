// ThreadSanitizer does not model std::atomic_thread_fence.  The linker's --wrap passes the atomic operations of the program
// through here: an acquire fence acquires what the thread's last atomic operations have read, as the language says.
#include <cstddef>
#include <cstdint>

extern "C" {
void __tsan_acquire(void* addr);
void __tsan_release(void* addr);
}
namespace {
constexpr unsigned ring = 4;
thread_local void* last[ring];
thread_local unsigned next_slot = 0;
void note(void volatile* a) {
    last[next_slot++ % ring] = const_cast<void*>(a);
}
}

#define RMW(bits, name)                                                                                  \
    extern "C" uint##bits##_t __real___tsan_atomic##bits##_##name(uint##bits##_t volatile*, uint##bits##_t, int); \
    extern "C" uint##bits##_t __wrap___tsan_atomic##bits##_##name(uint##bits##_t volatile* a, uint##bits##_t v, int mo) { \
        uint##bits##_t r = __real___tsan_atomic##bits##_##name(a, v, mo);                                \
        note(a);                                                                                         \
        return r;                                                                                        \
    }
#define LOAD(bits)                                                                                       \
    extern "C" uint##bits##_t __real___tsan_atomic##bits##_load(uint##bits##_t const volatile*, int);    \
    extern "C" uint##bits##_t __wrap___tsan_atomic##bits##_load(uint##bits##_t const volatile* a, int mo) { \
        uint##bits##_t r = __real___tsan_atomic##bits##_load(a, mo);                                     \
        note(const_cast<uint##bits##_t volatile*>(a));                                                   \
        return r;                                                                                        \
    }
#define CAS(bits, name)                                                                                  \
    extern "C" int __real___tsan_atomic##bits##_##name(uint##bits##_t volatile*, uint##bits##_t*, uint##bits##_t, int, int); \
    extern "C" int __wrap___tsan_atomic##bits##_##name(uint##bits##_t volatile* a, uint##bits##_t* c, uint##bits##_t v, int mo, int fmo) { \
        int r = __real___tsan_atomic##bits##_##name(a, c, v, mo, fmo);                                   \
        note(a);                                                                                         \
        return r;                                                                                        \
    }
#define ALL(bits) RMW(bits, exchange) RMW(bits, fetch_add) RMW(bits, fetch_sub) RMW(bits, fetch_and) RMW(bits, fetch_or) RMW(bits, fetch_xor) LOAD(bits) CAS(bits, compare_exchange_strong) CAS(bits, compare_exchange_weak)
ALL(16)
ALL(32)
ALL(64)

extern "C" void __real___tsan_atomic_thread_fence(int mo);
extern "C" void __wrap___tsan_atomic_thread_fence(int mo) {
    __real___tsan_atomic_thread_fence(mo);
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME)
        for (void* a : last) if (a) __tsan_acquire(a);
}
