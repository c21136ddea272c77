// Memory footprints of two actors, each on a thread of its own.
//
// The check is compiled with -fsanitize=thread but linked with the runtime below instead of the sanitizer's: every
// memory access of the instrumented code (the library is header-only, so all of it) reaches see().  Execution is
// sequential - the explorer decides which actor runs next - and the question asked of every access is whether the
// other actor has ever touched the same byte in this execution with at least one of the two a write.  If no such pair
// exists, the actors' steps commute pairwise, so every interleaving of their memory accesses is equivalent to the one
// that was run (one trace in the sense of partial-order reduction) and none has a data race.
//
// Tracked: the arena (everything allocated during a recorded step; addresses are never reused within an execution)
// and the static data of the program.  Not tracked: the actors' own stacks and thread-local data (disjoint), code in
// shared libraries (the C++ library synchronises its own).  Accesses made while holding a mutex conflict only with
// accesses made without one; atomic accesses do not conflict with each other; one-time initialisation of function
// statics is ordered by its guard.
#pragma once
#include "mc.hpp"

#include <dlfcn.h>
#include <pthread.h>

#define MC_QUIET __attribute__((no_sanitize("thread"), noinline))

extern "C" {
extern char __data_start; // NOLINT
extern char _end;         // NOLINT
}

namespace mc::races {
    constexpr std::uintptr_t ARENA  = 0x200000000000ULL;
    constexpr std::size_t    SIZE   = 1ULL << 30;
    constexpr std::uintptr_t SHADOW = 0x210000000000ULL; // two bytes per byte
    enum : unsigned { RP = 1, WP = 2, RA = 4, WA = 8, RL = 16, WL = 32 };
    inline std::uint16_t*            statics = nullptr;
    inline std::size_t               used    = 0;
    inline __thread int              actor   = -1; // recording as
    inline __thread int              locks   = 0;
    inline __thread int              guards  = 0;
    inline std::uintptr_t            conflict = 0;
    inline unsigned                  conflictBits = 0;
    inline std::uint64_t             accesses = 0;
    inline std::uintptr_t            lo = 0, hi = 0;

    MC_QUIET inline void raise(std::uintptr_t a, unsigned bits) {
        if (conflict == 0) {
            conflict     = a;
            conflictBits = bits;
        }
    }
    MC_QUIET inline bool ours(std::uintptr_t a) { // bookkeeping of the explorer itself
        const auto in = [a](const void* p, std::size_t n) __attribute__((no_sanitize("thread"))) {
            const auto b = reinterpret_cast<std::uintptr_t>(p);
            return a >= b && a < b + n;
        };
        return in(&mc::R, sizeof mc::R) || in(&mc::heap::cur, sizeof mc::heap::cur) || in(&mc::heap::end, sizeof mc::heap::end) || in(mc::heap::freeList, sizeof mc::heap::freeList) || in(&mc::heap::arena, sizeof mc::heap::arena) || in(&used, sizeof used) || in(&accesses, sizeof accesses) || in(&conflict, sizeof conflict);
    }
    MC_QUIET inline void see(std::uintptr_t a, std::size_t n, bool write, bool atomic = false) {
        const int me = actor;
        if (me < 0) {
            return;
        }
        std::uint16_t* s = nullptr;
        if (a >= ARENA && a < ARENA + SIZE) {
            s = reinterpret_cast<std::uint16_t*>(SHADOW) + (a - ARENA);
        } else if (a >= lo && a < hi) {
            if (ours(a)) {
                return;
            }
            s = statics + (a - lo);
        } else {
            return;
        }
        ++accesses;
        const unsigned kind  = atomic ? 4U : locks > 0 ? 16U : 1U;
        const unsigned other = me == 0 ? 8U : 0U;
        const unsigned mine  = me == 0 ? 0U : 8U;
        const unsigned own   = kind * (write ? 2U : 1U);
        if (guards > 0) {
            return; // ordered before every use by the guard
        }
        for (std::size_t i = 0; i < n; ++i) {
            const unsigned o = (s[i] >> other) & 0xFFU;
            if (o != 0) {
                // what of the other actor is incompatible with this access
                unsigned bad = write ? 63U : (WP | WA | WL);
                if (atomic) {
                    bad &= ~static_cast<unsigned>(RA | WA);
                } else if (locks > 0) {
                    bad &= ~static_cast<unsigned>(RL | WL);
                }
                if ((o & bad) != 0) {
                    raise(a + i, (o << 8U) | own);
                }
            }
            s[i] = static_cast<std::uint16_t>(s[i] | (own << mine));
        }
    }
    MC_QUIET inline void* fresh(std::size_t n) { // memory allocated during a recorded step
        if (actor < 0 || guards > 0) {
            return nullptr;
        }
        const std::size_t at = (used + 31) & ~static_cast<std::size_t>(15);
        if (at + n > SIZE) {
            return nullptr;
        }
        used = at + n;
        void* p = reinterpret_cast<void*>(ARENA + at);
        if (n <= mc::heap::POISON) {
            memset(p, 0xA5, n);
        }
        return p;
    }
    MC_QUIET inline void begin() {
        if (statics == nullptr) {
            lo = reinterpret_cast<std::uintptr_t>(&__data_start);
            hi = reinterpret_cast<std::uintptr_t>(&_end);
            const int f = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
            if (mmap(reinterpret_cast<void*>(ARENA), SIZE, PROT_READ | PROT_WRITE, f | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED || mmap(reinterpret_cast<void*>(SHADOW), 2 * SIZE, PROT_READ | PROT_WRITE, f | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) {
                mc::heap::die("mc: cannot map the arena\n");
            }
            statics = static_cast<std::uint16_t*>(mmap(nullptr, 2 * (hi - lo), PROT_READ | PROT_WRITE, f, -1, 0));
            mc::hold            = [](int to) __attribute__((no_sanitize("thread"))) { return std::exchange(actor, to); };
            mc::heap::arena     = fresh;
            mc::heap::arenaLow  = ARENA;
            mc::heap::arenaHigh = ARENA + SIZE;
        }
        const std::size_t up = (used + 4096) & ~static_cast<std::size_t>(4095);
        if (up > (64U << 20U)) {
            madvise(reinterpret_cast<void*>(ARENA), up, MADV_DONTNEED);
            madvise(reinterpret_cast<void*>(SHADOW), 2 * up, MADV_DONTNEED);
        } else {
            memset(reinterpret_cast<void*>(ARENA), 0, up);
            memset(reinterpret_cast<void*>(SHADOW), 0, 2 * up);
        }
        memset(statics, 0, 2 * (hi - lo));
        used     = 0;
        conflict = 0;
        accesses = 0;
    }
    MC_QUIET inline std::string describe() {
        std::ostringstream os;
        const unsigned     o = conflictBits >> 8U;
        os << ((conflictBits & (WP | WA | WL)) != 0 ? "writes" : "reads") << " memory the other one " << ((o & (WP | WA | WL)) != 0 ? "writes" : "reads") << ": ";
        if (conflict >= ARENA && conflict < ARENA + SIZE) {
            os << "a heap block";
        } else {
            Dl_info i{};
            if (dladdr(reinterpret_cast<void*>(conflict), &i) != 0 && i.dli_sname != nullptr) {
                os << demangled(i.dli_sname) << "+" << conflict - reinterpret_cast<std::uintptr_t>(i.dli_saddr);
            } else {
                os << "static data";
            }
        }
        return os.str();
    }

    // ---- a thread that runs one step at a time when told to ------------------------------------------------------
    class Actor {
    public:
        MC_QUIET explicit Actor(int id):
            me(id) {
            pthread_mutex_init(&mx, nullptr);
            pthread_cond_init(&cv, nullptr);
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstacksize(&at, 8U << 20U);
            if (pthread_create(&th, &at, &Actor::main, this) != 0) {
                mc::fail("harness error: no thread");
            }
            pthread_attr_destroy(&at);
        }
        MC_QUIET ~Actor() {
            hand(2);
            pthread_join(th, nullptr);
            pthread_cond_destroy(&cv);
            pthread_mutex_destroy(&mx);
        }
        Actor(const Actor&) = delete;
        Actor& operator=(const Actor&) = delete;
        // run f on the actor's thread, recording what it touches
        MC_QUIET void run(const std::function<void()>& f, bool recorded = true) {
            work = &f;
            rec  = recorded;
            hand(1);
            pthread_mutex_lock(&mx);
            while (turn != 0) {
                pthread_cond_wait(&cv, &mx);
            }
            pthread_mutex_unlock(&mx);
            if (failed) {
                std::rethrow_exception(std::exchange(failed, nullptr));
            }
        }

    private:
        MC_QUIET void hand(int t) {
            pthread_mutex_lock(&mx);
            turn = t;
            pthread_cond_broadcast(&cv);
            pthread_mutex_unlock(&mx);
        }
        MC_QUIET static void* main(void* x) {
            auto* a = static_cast<Actor*>(x);
            while (true) {
                pthread_mutex_lock(&a->mx);
                while (a->turn == 0) {
                    pthread_cond_wait(&a->cv, &a->mx);
                }
                const int t = a->turn;
                pthread_mutex_unlock(&a->mx);
                if (t == 2) {
                    return nullptr;
                }
                try {
                    actor = a->rec ? a->me : -1;
                    (*a->work)();
                    actor = -1;
                } catch (...) {
                    actor     = -1;
                    a->failed = std::current_exception();
                }
                a->hand(0);
            }
        }
        int                          me;
        int                          turn = 0;
        bool                         rec  = true;
        const std::function<void()>* work = nullptr;
        std::exception_ptr           failed;
        pthread_t                    th{};
        pthread_mutex_t              mx{};
        pthread_cond_t               cv{};
    };
} // namespace mc::races

// ---- the runtime the instrumentation calls ----------------------------------------------------------------------
extern "C" {
#define MC_RW(n)                                                                                                                 \
    MC_QUIET void __tsan_read##n(void* p) { mc::races::see(reinterpret_cast<std::uintptr_t>(p), n, false); }                      \
    MC_QUIET void __tsan_write##n(void* p) { mc::races::see(reinterpret_cast<std::uintptr_t>(p), n, true); }                      \
    MC_QUIET void __tsan_unaligned_read##n(void* p) { mc::races::see(reinterpret_cast<std::uintptr_t>(p), n, false); }            \
    MC_QUIET void __tsan_unaligned_write##n(void* p) { mc::races::see(reinterpret_cast<std::uintptr_t>(p), n, true); }            \
    MC_QUIET void __tsan_volatile_read##n(void* p) { mc::races::see(reinterpret_cast<std::uintptr_t>(p), n, false); }             \
    MC_QUIET void __tsan_volatile_write##n(void* p) { mc::races::see(reinterpret_cast<std::uintptr_t>(p), n, true); }
MC_RW(1)
MC_RW(2)
MC_RW(4)
MC_RW(8)
MC_RW(16)
MC_QUIET void __tsan_read_range(void* p, unsigned long n) { mc::races::see(reinterpret_cast<std::uintptr_t>(p), n, false); }
MC_QUIET void __tsan_write_range(void* p, unsigned long n) { mc::races::see(reinterpret_cast<std::uintptr_t>(p), n, true); }
MC_QUIET void __tsan_vptr_update(void* p, void*) { mc::races::see(reinterpret_cast<std::uintptr_t>(p), 8, true); }
MC_QUIET void __tsan_vptr_read(void* p) { mc::races::see(reinterpret_cast<std::uintptr_t>(p), 8, false); }
MC_QUIET void __tsan_init() {}
MC_QUIET void __tsan_func_entry(void*) {}
MC_QUIET void __tsan_func_exit(void*) {}
#define MC_ATOMIC(bits, T)                                                                                                       \
    MC_QUIET T __tsan_atomic##bits##_load(const volatile T* p, int) {                                                             \
        mc::races::see(reinterpret_cast<std::uintptr_t>(p), sizeof(T), false, true);                                             \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                             \
    }                                                                                                                            \
    MC_QUIET void __tsan_atomic##bits##_store(volatile T* p, T v, int) {                                                          \
        mc::races::see(reinterpret_cast<std::uintptr_t>(p), sizeof(T), true, true);                                              \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                                \
    }                                                                                                                            \
    MC_ATOMIC_RMW(bits, T, exchange, exchange_n)                                                                                 \
    MC_ATOMIC_RMW(bits, T, fetch_add, fetch_add)                                                                                 \
    MC_ATOMIC_RMW(bits, T, fetch_sub, fetch_sub)                                                                                 \
    MC_ATOMIC_RMW(bits, T, fetch_and, fetch_and)                                                                                 \
    MC_ATOMIC_RMW(bits, T, fetch_or, fetch_or)                                                                                   \
    MC_ATOMIC_RMW(bits, T, fetch_xor, fetch_xor)                                                                                 \
    MC_QUIET int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                              \
        mc::races::see(reinterpret_cast<std::uintptr_t>(p), sizeof(T), true, true);                                              \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) ? 1 : 0;                          \
    }                                                                                                                            \
    MC_QUIET int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {                                \
        mc::races::see(reinterpret_cast<std::uintptr_t>(p), sizeof(T), true, true);                                              \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) ? 1 : 0;                          \
    }
#define MC_ATOMIC_RMW(bits, T, name, builtin)                                                                                    \
    MC_QUIET T __tsan_atomic##bits##_##name(volatile T* p, T v, int) {                                                            \
        mc::races::see(reinterpret_cast<std::uintptr_t>(p), sizeof(T), true, true);                                              \
        return __atomic_##builtin(p, v, __ATOMIC_SEQ_CST);                                                                       \
    }
MC_ATOMIC(8, unsigned char)
MC_ATOMIC(16, unsigned short)
MC_ATOMIC(32, unsigned)
MC_ATOMIC(64, unsigned long)
MC_QUIET void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
MC_QUIET void __tsan_atomic_signal_fence(int) {}

// block operations, locks and guards (linked with --wrap)
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
int   __real_memcmp(const void*, const void*, std::size_t);
int   __real_pthread_mutex_lock(pthread_mutex_t*);
int   __real_pthread_mutex_unlock(pthread_mutex_t*);
int   __real___cxa_guard_acquire(void*);
void  __real___cxa_guard_release(void*);
void  __real___cxa_guard_abort(void*);
MC_QUIET void* __wrap_memcpy(void* d, const void* s, std::size_t n) {
    mc::races::see(reinterpret_cast<std::uintptr_t>(d), n, true);
    mc::races::see(reinterpret_cast<std::uintptr_t>(s), n, false);
    return __real_memcpy(d, s, n);
}
MC_QUIET void* __wrap_memmove(void* d, const void* s, std::size_t n) {
    mc::races::see(reinterpret_cast<std::uintptr_t>(d), n, true);
    mc::races::see(reinterpret_cast<std::uintptr_t>(s), n, false);
    return __real_memmove(d, s, n);
}
MC_QUIET void* __wrap_memset(void* d, int c, std::size_t n) {
    mc::races::see(reinterpret_cast<std::uintptr_t>(d), n, true);
    return __real_memset(d, c, n);
}
MC_QUIET int __wrap_memcmp(const void* a, const void* b, std::size_t n) {
    mc::races::see(reinterpret_cast<std::uintptr_t>(a), n, false);
    mc::races::see(reinterpret_cast<std::uintptr_t>(b), n, false);
    return __real_memcmp(a, b, n);
}
MC_QUIET int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    const int r = __real_pthread_mutex_lock(m);
    ++mc::races::locks;
    return r;
}
MC_QUIET int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    --mc::races::locks;
    return __real_pthread_mutex_unlock(m);
}
MC_QUIET int __wrap___cxa_guard_acquire(void* g) {
    const int r = __real___cxa_guard_acquire(g);
    if (r != 0) {
        ++mc::races::guards;
    }
    return r;
}
MC_QUIET void __wrap___cxa_guard_release(void* g) {
    --mc::races::guards;
    __real___cxa_guard_release(g);
}
MC_QUIET void __wrap___cxa_guard_abort(void* g) {
    --mc::races::guards;
    __real___cxa_guard_abort(g);
}
}
