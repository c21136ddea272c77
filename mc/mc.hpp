// Bounded exhaustive explorer for the real dd_package code.
//
// A check is a set of phases.  A phase body is a deterministic function that calls mc::choose(n) at every
// decision point; the explorer runs the body once for every sequence of answers (depth-first, complete).
// The leaves are partitioned over forked workers.  Every execution runs the code in /repo/include directly.
// A violated execution is replayed alone in a fresh process before it is reported.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>
#include <vector>

// ---------------------------------------------------------------------------------------------------------
// Deterministic heap: fixed base address, size-class free lists, poisoned memory, guard words.  The library
// hashes node addresses, so addresses have to be a function of the execution alone.
// ---------------------------------------------------------------------------------------------------------
#ifdef __SANITIZE_ADDRESS__ // memory that is not in use is marked for AddressSanitizer and reused late
#include <sanitizer/asan_interface.h>
#define MC_RAW __attribute__((no_sanitize("address", "undefined")))
#else
#define MC_RAW
#endif
namespace mc::heap {
#ifdef __SANITIZE_ADDRESS__
    constexpr std::uintptr_t BASE   = 0x200000000000ULL;
    MC_RAW inline void       closeMem(const void* p, std::size_t n) { __asan_poison_memory_region(p, n); }
    MC_RAW inline void       openMem(const void* p, std::size_t n) { __asan_unpoison_memory_region(p, n); }
    inline void*             lastFree[64];
    inline unsigned          idle[64];
#else
    constexpr std::uintptr_t BASE   = 0x100000000000ULL;
    inline void              closeMem(const void*, std::size_t) {}
    inline void              openMem(const void*, std::size_t) {}
#endif
    inline std::size_t live = 0; // bytes in use
    constexpr std::size_t    LIMIT  = 6ULL << 30;
    constexpr std::size_t    POISON = 1U << 16;
    struct Head {
        std::size_t size;
        std::size_t magic;
    };
    inline char*       cur = nullptr;
    inline char*       end = nullptr;
    inline void*       freeList[64];
    // memory that belongs to one execution and is never reused within it (mc/races.hpp)
    inline void* (*arena)(std::size_t) = nullptr;
    inline std::uintptr_t arenaLow  = 0;
    inline std::uintptr_t arenaHigh = 0;
    inline void        init() {
        if (cur != nullptr) {
            return;
        }
        void* p = mmap(reinterpret_cast<void*>(BASE), LIMIT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) {
            static const char m[] = "mc: cannot map heap\n";
            (void)!write(2, m, sizeof(m) - 1);
            _exit(3);
        }
        cur = static_cast<char*>(p);
        end = cur + LIMIT;
    }
    inline int cls(std::size_t n) {
        int c = 5;
        while ((1ULL << c) < n) {
            ++c;
        }
        return c;
    }
    MC_RAW inline void* alloc(std::size_t n) {
        if (arena != nullptr) {
            if (void* a = arena(n); a != nullptr) {
                return a;
            }
        }
        init();
        const int         c    = cls(n + sizeof(Head) + 8);
        const std::size_t full = 1ULL << c;
        char*             b;
        bool              old = freeList[c] != nullptr;
#ifdef __SANITIZE_ADDRESS__
        old = idle[c] > (c < 13 ? 64U : 8U);
        idle[c] -= old ? 1 : 0;
#endif
        if (old) {
            b           = static_cast<char*>(freeList[c]);
            freeList[c] = *reinterpret_cast<void**>(b + sizeof(Head));
        } else {
            if (cur + full > end) {
                return nullptr;
            }
            b = cur;
            cur += full;
            closeMem(b, full);
        }
        live += n;
        auto* h  = reinterpret_cast<Head*>(b);
        h->size  = n;
        h->magic = 0xA110C8EDULL;
        char* u  = b + sizeof(Head);
        openMem(u, n);
        if (n <= POISON) {
            memset(u, 0xA5, n);
        }
#ifndef __SANITIZE_ADDRESS__
        const std::uint64_t g = 0xFEEDFACECAFEBEEFULL;
        memcpy(u + n, &g, 8);
#endif
        return u;
    }
    inline void die(const char* m) {
        (void)!write(2, m, strlen(m));
        abort();
    }
    MC_RAW inline void release(void* p) {
        if (p == nullptr) {
            return;
        }
        char* u = static_cast<char*>(p);
        if (const auto a = reinterpret_cast<std::uintptr_t>(p); a >= arenaLow && a < arenaHigh) {
            return;
        }
        auto* h = reinterpret_cast<Head*>(u - sizeof(Head));
        if (h->magic != 0xA110C8EDULL) {
            die("mc: invalid or double free\n");
        }
        h->magic = 0xDEADULL;
        live -= h->size;
        const int c = cls(h->size + sizeof(Head) + 8);
#ifdef __SANITIZE_ADDRESS__
        closeMem(u, h->size);
        *reinterpret_cast<void**>(u) = nullptr;
        if (idle[c]++ == 0) {
            freeList[c] = u - sizeof(Head);
        } else {
            *reinterpret_cast<void**>(static_cast<char*>(lastFree[c]) + sizeof(Head)) = u - sizeof(Head);
        }
        lastFree[c] = u - sizeof(Head);
#else
        std::uint64_t g = 0;
        memcpy(&g, u + h->size, 8);
        if (g != 0xFEEDFACECAFEBEEFULL) {
            die("mc: heap block overrun\n");
        }
        if (h->size <= POISON) {
            memset(u, 0x5A, h->size);
        }
        *reinterpret_cast<void**>(u) = freeList[c];
        freeList[c]                  = u - sizeof(Head);
#endif
    }
} // namespace mc::heap

#ifndef MC_SECOND // one part of a check provides them
void* operator new(std::size_t n) {
    void* p = mc::heap::alloc(n == 0 ? 1 : n);
    if (p == nullptr) {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return mc::heap::alloc(n == 0 ? 1 : n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return mc::heap::alloc(n == 0 ? 1 : n); }
void  operator delete(void* p) noexcept { mc::heap::release(p); }
void  operator delete[](void* p) noexcept { mc::heap::release(p); }
void  operator delete(void* p, std::size_t) noexcept { mc::heap::release(p); }
void  operator delete[](void* p, std::size_t) noexcept { mc::heap::release(p); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { mc::heap::release(p); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { mc::heap::release(p); }
#endif

namespace mc {
    // -----------------------------------------------------------------------------------------------------
    // Harness API
    // -----------------------------------------------------------------------------------------------------
    struct Violation {
        std::string key;
        std::string msg;
    };
    struct SkipExec {}; // prefix belongs to another worker
    struct Pruned {};   // harness decided that this sequence is not a legal history (documented per harness)

    using Body = std::function<void()>;
    struct Phase {
        std::string name;
        unsigned    split;    // number of leading choices used to distribute work
        bool        thorough; // only in the thorough tier
        Body        body;
        bool        quickOnly = false;
    };

    constexpr unsigned MAXPATH   = 256;
    constexpr unsigned MAXW      = 64;
    constexpr unsigned MAXPHASE  = 256;
    constexpr unsigned NSAMPLE   = 6;
    constexpr unsigned SAMPLELEN = 700;
    constexpr unsigned MAXKNOWN  = 32;

    struct WorkerShm {
        volatile std::uint64_t tick;
        volatile unsigned      phase;
        volatile unsigned      len;
        unsigned short         val[MAXPATH];
        unsigned short         num[MAXPATH];
        std::uint64_t          execs[MAXPHASE];
        std::uint64_t          pruned[MAXPHASE];
        std::uint64_t          ops;
        std::uint64_t          choices;
        std::uint64_t          rechecked;
        std::uint64_t          nStates;
        std::uint64_t          statesCapped;
        unsigned               violated;
        char                   key[200];
        char                   msg[3000];
        unsigned               capped;
        unsigned               nKnown;
        char                   known[MAXKNOWN][200];
        unsigned               nSamples;
        char                   samples[NSAMPLE][SAMPLELEN];
        char                   trace[20000];
    };

    constexpr std::size_t STATECAP = 1U << 21; // per worker

    struct Run {
        std::string           prop;
        std::string           tier;
        bool                  thorough = false;
        std::vector<Phase>    phases;
        std::set<std::string> known;
        unsigned              W   = 8;
        unsigned              wid = 0;
        WorkerShm*            shm = nullptr; // my slot
        WorkerShm*            all = nullptr;
        std::uint64_t*        states = nullptr; // my open addressing table
        // current execution
        unsigned      phase = 0;
        unsigned      pos   = 0;
        unsigned      len   = 0; // length of forced prefix
        unsigned      split = 1;
        std::uint64_t prefixOrdinal = 0;
        bool          prefixDone    = false;
        bool          replay        = false;
        bool          tracing       = false;
        std::uint64_t obs           = 0;
        std::string   trace;
        double        deadline = 0;
    };
    inline Run R;
    // A check may be built from the phases of others (parts); then only what the sanitizers report counts.
    inline std::vector<Phase>* collecting = nullptr;
    inline bool                crashOnly  = false;
    inline int                 errFd      = -1; // what the sanitizers print

    inline double now() {
        timespec t{};
        clock_gettime(CLOCK_MONOTONIC, &t);
        return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
    }
    inline bool thorough() { return R.thorough; }
    inline bool tracing() { return R.tracing; }
    inline int (*hold)(int) = nullptr; // mc/races.hpp: what follows is the explorer's own
    inline void note(const std::string& s) {
        if (R.tracing) {
            const int was = hold != nullptr ? hold(-1) : 0;
            R.trace += s;
            R.trace += '\n';
            if (hold != nullptr) {
                hold(was);
            }
        }
    }
#define MC_NOTE(expr)                   \
    do {                                \
        if (mc::tracing()) {            \
            std::ostringstream mcOs_;   \
            mcOs_ << expr;              \
            mc::note(mcOs_.str());      \
        }                               \
    } while (0)

    [[noreturn]] inline void failKey(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
    [[noreturn]] inline void fail(const std::string& msg) { throw Violation{"", msg}; }
#define MC_CHECK(cond, expr)            \
    do {                                \
        if (!(cond)) {                  \
            std::ostringstream mcOs_;   \
            mcOs_ << expr;              \
            mc::fail(mcOs_.str());      \
        }                               \
    } while (0)
    [[noreturn]] inline void prune() { throw Pruned{}; }

    inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
        a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2);
        a ^= a >> 33;
        a *= 0xff51afd7ed558ccdULL;
        a ^= a >> 33;
        a *= 0xc4ceb9fe1a85ec53ULL;
        a ^= a >> 33;
        return a;
    }
    // record an observed state of the system (deduplicated by 64-bit hash); every observation also feeds the
    // observation hash which must be identical when an execution is repeated
    inline void state(std::uint64_t h) {
        h     = mix(h, R.phase + 1);
        R.obs = mix(R.obs, h);
        if (h == 0) {
            h = 1;
        }
        if (R.states == nullptr) {
            return;
        }
        if (R.shm->nStates * 2 > STATECAP) {
            R.shm->statesCapped = 1;
            return;
        }
        std::size_t i = h & (STATECAP - 1);
        while (R.states[i] != 0) {
            if (R.states[i] == h) {
                return;
            }
            i = (i + 1) & (STATECAP - 1);
        }
        R.states[i] = h;
        R.shm->nStates++;
    }
    inline void op(std::uint64_t n = 1) { R.shm->ops += n; }
    // reference values that are computed once and kept: not part of what an execution observes
    struct Reference {
        std::uint64_t obs = R.obs;
        ~Reference() { R.obs = obs; }
    };
    // tell the watchdog that a long execution is making progress
    inline void alive() { R.shm->tick = R.shm->tick + 1; }

    inline unsigned choose(unsigned n, const char* label = nullptr) {
        if (n == 0) {
            fail("harness error: choose(0)");
        }
        auto& s = *R.shm;
        if (R.pos >= MAXPATH) {
            fail("harness error: choice sequence too long");
        }
        if (R.pos >= R.len) {
            s.val[R.pos] = 0;
            s.num[R.pos] = static_cast<unsigned short>(n);
            R.len        = R.pos + 1;
            s.len        = R.len;
            s.choices++;
        } else if (s.num[R.pos] != n && s.num[R.pos] != 0) {
            fail("nondeterministic: the same prefix of choices led to a different decision point");
        }
        s.num[R.pos]     = static_cast<unsigned short>(n);
        const unsigned v = s.val[R.pos++];
        if (!R.replay && R.pos == R.split && !R.prefixDone) {
            R.prefixDone = true;
            if (R.prefixOrdinal % R.W != R.wid) {
                throw SkipExec{};
            }
        }
        if (R.tracing && label != nullptr) {
            note(std::string(label) + "=" + std::to_string(v));
        }
        return v;
    }
    template<class T, std::size_t N>
    const T& pick(const T (&a)[N], const char* label = nullptr) { return a[choose(N, label)]; }
    template<class T>
    const T& pick(const std::vector<T>& a, const char* label = nullptr) { return a[choose(static_cast<unsigned>(a.size()), label)]; }

    // -----------------------------------------------------------------------------------------------------
    // Driver
    // -----------------------------------------------------------------------------------------------------
    enum class End { Done, Skipped, PrunedE, Violated };

    inline std::string demangled(const char* n) {
        int   st = 0;
        char* d  = abi::__cxa_demangle(n, nullptr, nullptr, &st);
        if (d == nullptr) {
            return n;
        }
        std::string r = d;
        free(d);
        return r;
    }

    inline End once(Violation& v) {
        R.pos        = 0;
        R.prefixDone = false;
        R.obs        = 0;
        R.trace.clear();
        try {
            R.phases[R.phase].body();
            if (!R.replay && !R.prefixDone) { // execution shorter than the split depth
                if (const char* log = getenv("MC_SPLIT"); log != nullptr && R.wid == 0 && R.pos > 0) { // development aid
                    if (FILE* o = fopen(log, "a"); o != nullptr) {
                        fprintf(o, "%s: %u choices, split %u\n", R.phases[R.phase].name.c_str(), static_cast<unsigned>(R.pos), static_cast<unsigned>(R.split));
                        fclose(o);
                    }
                }
                R.prefixDone = true;
                if (R.prefixOrdinal % R.W != R.wid) {
                    return End::Skipped;
                }
            }
            return End::Done;
        } catch (const SkipExec&) {
            return End::Skipped;
        } catch (const Pruned&) {
            return End::PrunedE;
        } catch (const Violation& e) {
            if (crashOnly && e.key != "crash") {
                return End::Done;
            }
            v = e;
        } catch (const std::exception& e) {
            if (crashOnly) {
                return End::Done;
            }
            v = {"", std::string("unexpected exception ") + demangled(typeid(e).name()) + ": " + e.what()};
        }
        // an execution that belongs to another worker and fails before the split point is that worker's
        if (!R.replay && !R.prefixDone && R.prefixOrdinal % R.W != R.wid) {
            return End::Skipped;
        }
        return End::Violated;
    }

    inline bool advance() { // next choice sequence; false when the tree is exhausted
        auto& s = *R.shm;
        // after a skip nothing below the split depth was recorded
        while (R.len > 0) {
            const unsigned i = R.len - 1;
            if (static_cast<unsigned>(s.val[i]) + 1 < s.num[i]) {
                s.val[i]++;
                if (i < R.split) {
                    R.prefixOrdinal++;
                }
                s.len = R.len;
                return true;
            }
            R.len--;
            s.len = R.len;
        }
        return false;
    }

    inline void copyStr(char* d, std::size_t n, const std::string& s) {
        const std::size_t k = std::min(n - 1, s.size());
        memcpy(d, s.data(), k);
        d[k] = 0;
    }

    inline void runPhase(unsigned ph) {
        auto& s         = *R.shm;
        R.phase         = ph;
        s.phase         = ph;
        R.len           = 0;
        s.len           = 0;
        R.prefixOrdinal = 0;
        R.split         = R.phases[ph].split;
        std::uint64_t n = 0;
        do {
            Violation v;
            // collect a few samples
            const bool sample = R.wid == 0 && s.nSamples < NSAMPLE && (n == 1 || (n == 40 && s.nSamples < NSAMPLE - 1));
            R.tracing         = sample;
            const auto e      = once(v);
            s.tick            = s.tick + 1;
            if (e == End::Skipped) {
                continue;
            }
            if (e == End::PrunedE) {
                s.pruned[ph]++;
                continue;
            }
            if (e == End::Violated) {
                if (!v.key.empty() && R.known.count(v.key) != 0) {
                    bool have = false;
                    for (unsigned k = 0; k < s.nKnown; ++k) {
                        have = have || v.key == s.known[k];
                    }
                    if (!have && s.nKnown < MAXKNOWN) {
                        copyStr(s.known[s.nKnown++], 200, v.key);
                    }
                } else {
                    copyStr(s.key, sizeof(s.key), v.key);
                    copyStr(s.msg, sizeof(s.msg), v.msg);
                    s.violated = 1;
                    _exit(10);
                }
            }
            s.execs[ph]++;
            ++n;
            if (sample && !R.trace.empty() && s.nSamples < NSAMPLE) {
                std::string t = "[" + R.phases[ph].name + "] " + R.trace;
                for (auto& c: t) {
                    if (c == '\n') {
                        c = ';';
                    }
                }
                copyStr(s.samples[s.nSamples++], SAMPLELEN, t);
            }
            R.tracing = false;
            if (n % 509 == 3) { // determinism audit: same choices => same observations
                const auto obs  = R.obs;
                auto*      st   = R.states;
                const auto ops  = s.ops;
                R.states        = nullptr;
                const auto e2   = once(v);
                R.states        = st;
                s.ops           = ops;
                s.rechecked++;
                if (!crashOnly && (e2 != e || R.obs != obs)) {
                    copyStr(s.key, sizeof(s.key), "");
                    copyStr(s.msg, sizeof(s.msg), "nondeterministic: repeating the same execution gave different observations");
                    s.violated = 1;
                    _exit(10);
                }
            }
            if (now() > R.deadline) {
                s.capped = 1;
                return;
            }
        } while (advance());
    }

    inline void silence() {
        const int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(errFd >= 0 && R.replay ? errFd : fd, 2);
    }
    // the lines of a sanitizer report that say what happened
    inline std::string report() {
        std::string s(1U << 16, 0);
        const auto  n = errFd >= 0 ? pread(errFd, s.data(), s.size(), 0) : 0;
        s.resize(n > 0 ? static_cast<std::size_t>(n) : 0);
        std::istringstream is(s);
        std::string        l;
        std::string        o;
        unsigned           k = 0;
        while (std::getline(is, l)) {
            const bool head  = l.find("runtime error:") != std::string::npos || l.find("ERROR: AddressSanitizer") != std::string::npos;
            const auto frame = l.find("dd/");
            if (head) {
                o += (o.empty() ? "" : "; ") + l;
            } else if (l.find("    #") == 0 && frame != std::string::npos && k < 3) {
                ++k;
                o += " <- " + l.substr(frame);
            }
        }
        return o;
    }

    inline pid_t spawn(unsigned wid, const std::function<void()>& f) {
        const pid_t p = fork();
        if (p == 0) {
            R.wid = wid;
            R.shm = &R.all[wid];
            rlimit rl{16UL << 20, 16UL << 20};
            setrlimit(RLIMIT_STACK, &rl);
            rlimit rc{0, 0};
            setrlimit(RLIMIT_CORE, &rc);
            silence();
            f();
            _exit(0);
        }
        return p;
    }

    struct Outcome {
        bool        bad = false;
        std::string msg;
        std::string key;
        std::string trace;
    };

    // replay one choice sequence alone in a fresh process
    inline Outcome replayAlone(unsigned ph, const std::vector<unsigned>& path, double limit) {
        auto& s = R.all[MAXW - 1];
        memset(static_cast<void*>(&s), 0, sizeof(s));
        for (std::size_t i = 0; i < path.size(); ++i) {
            s.val[i] = static_cast<unsigned short>(path[i]);
        }
        s.len         = static_cast<unsigned>(path.size());
        R.replay      = true; // for the child
        if (errFd >= 0) {
            (void)!ftruncate(errFd, 0);
            lseek(errFd, 0, SEEK_SET);
        }
        const pid_t p = spawn(MAXW - 1, [&] {
            R.tracing = true;
            R.phase   = ph;
            R.len     = static_cast<unsigned>(path.size());
            R.states  = nullptr;
            Violation  v;
            const auto e = once(v);
            copyStr(R.shm->trace, sizeof(R.shm->trace), R.trace);
            if (e == End::Violated) {
                copyStr(R.shm->key, sizeof(R.shm->key), v.key);
                copyStr(R.shm->msg, sizeof(R.shm->msg), v.msg);
                _exit(10);
            }
            _exit(0);
        });
        R.replay        = false;
        const double t0 = now();
        int          st = 0;
        Outcome      o;
        for (;;) {
            const pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) {
                break;
            }
            if (now() - t0 > limit) {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                o.bad = true;
                o.msg = "execution does not terminate (stopped after " + std::to_string(static_cast<int>(limit)) + " s when run alone)";
                return o;
            }
            usleep(2000);
        }
        o.trace = s.trace;
        if (WIFSIGNALED(st)) {
            o.bad = true;
            o.msg = std::string("the library crashes: ") + strsignal(WTERMSIG(st));
        } else if (WEXITSTATUS(st) == 10) {
            o.bad = true;
            o.msg = s.msg;
            o.key = s.key;
        } else if (WEXITSTATUS(st) != 0) {
            o.bad = true;
            o.msg = "the execution ended the process with status " + std::to_string(WEXITSTATUS(st));
        }
        if (const auto r = report(); o.bad && !r.empty()) {
            o.msg = r;
        }
        return o;
    }

    inline std::string jsonStr(const std::string& s) {
        std::string o = "\"";
        for (const char ch: s) {
            const auto c = static_cast<unsigned char>(ch);
            if (c == '"' || c == '\\') {
                o += '\\';
                o += ch;
            } else if (c == '\n') {
                o += "\\n";
            } else if (c < 32 || c > 126) {
                char b[8];
                snprintf(b, sizeof(b), "\\u%04x", c);
                o += b;
            } else {
                o += ch;
            }
        }
        return o + "\"";
    }

    struct Info {
        std::string              bounds;      // what was enumerated, in words
        std::vector<std::string> assumptions; // trusted parts
    };

    inline int finish(const std::string& root, const Info& info, const std::string& seed, double t0, int violations,
                      const std::set<std::string>& knownSeen, const std::vector<unsigned>& run) {
        std::uint64_t ops = 0;
        std::uint64_t ex  = 0;
        std::uint64_t ch  = 0;
        std::uint64_t re  = 0;
        std::uint64_t pr  = 0;
        bool          cap = false;
        bool          sc  = false;
        std::map<unsigned, std::uint64_t> per;
        for (unsigned w = 0; w < R.W; ++w) {
            auto& s = R.all[w];
            ops += s.ops;
            ch += s.choices;
            re += s.rechecked;
            cap = cap || s.capped != 0;
            sc  = sc || s.statesCapped != 0;
            for (const auto p: run) {
                per[p] += s.execs[p];
                ex += s.execs[p];
                pr += s.pruned[p];
            }
        }
        // merge the visited-state tables
        std::vector<std::uint64_t> m;
        for (unsigned w = 0; w < R.W; ++w) {
            auto* t = R.states + static_cast<std::size_t>(w) * STATECAP;
            if (R.all[w].nStates == 0) {
                continue;
            }
            for (std::size_t i = 0; i < STATECAP; ++i) {
                if (t[i] != 0) {
                    m.push_back(t[i]);
                }
            }
        }
        std::sort(m.begin(), m.end());
        m.erase(std::unique(m.begin(), m.end()), m.end());
        std::ostringstream o;
        o << "{\n \"property\": " << jsonStr(R.prop) << ",\n \"tier\": " << jsonStr(R.tier) << ",\n \"seed\": " << (seed.empty() ? "0" : seed)
          << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n  \"states\": " << m.size() << ",\n  \"transitions\": " << ops
          << ",\n  \"traces_validated_against_impl\": " << ex << ",\n  \"decision_points\": " << ch
          << ",\n  \"executions_repeated_for_determinism\": " << re << ",\n  \"histories_pruned_as_illegal\": " << pr
          << ",\n  \"exhaustive\": " << (cap || violations != 0 ? "false" : "true");
        if (sc) {
            o << ",\n  \"states_note\": \"visited-state counter saturated; the count is a lower bound\"";
        }
        o << ",\n  \"bounds\": " << jsonStr(info.bounds) << ",\n  \"executions_per_phase\": {";
        bool first = true;
        for (const auto p: run) {
            o << (first ? "" : ", ") << jsonStr(R.phases[p].name) << ": " << per[p];
            first = false;
        }
        o << "},\n  \"known_findings_seen\": " << knownSeen.size() << ",\n  \"samples\": [";
        first = true;
        for (unsigned i = 0; i < R.all[0].nSamples; ++i) {
            o << (first ? "" : ", ") << "\n   " << jsonStr(R.all[0].samples[i]);
            first = false;
        }
        o << "\n  ]\n },\n \"assumptions\": [";
        first = true;
        for (const auto& a: info.assumptions) {
            o << (first ? "" : ", ") << jsonStr(a);
            first = false;
        }
        o << "],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << violations << "\n}\n";
        const std::string f = root + "/evidence/" + R.prop + ".json";
        mkdir((root + "/evidence").c_str(), 0777);
        std::ofstream(f) << o.str();
        printf("%s %s: %" PRIu64 " executions, %" PRIu64 " operations, %zu distinct states, %s, %.1f s\n", R.prop.c_str(), R.tier.c_str(), ex, ops, m.size(),
               cap ? "CAPPED by time" : "exhaustive within bounds", now() - t0);
        for (const auto p: run) {
            printf("  %-40s %" PRIu64 " executions\n", R.phases[p].name.c_str(), per[p]);
        }
        return 0;
    }

    inline int run(const std::string& prop, int argc, char** argv, std::vector<Phase> phases, const Info& info) {
        if (collecting != nullptr) {
            for (auto& p: phases) {
                p.name = prop + "-" + p.name;
                collecting->push_back(p);
            }
            return 0;
        }
        const double t0   = now();
        R.prop            = prop;
        const char* tier  = getenv("VERIF_TIER");
        const char* seedE = getenv("VERIF_SEED");
        R.tier            = tier != nullptr && std::string(tier) == "thorough" ? "thorough" : "quick";
        std::string root  = ".";
        std::string rep;
        std::string only;
        for (int i = 1; i < argc; ++i) {
            const std::string a = argv[i];
            if (a == "--root") {
                root = argv[++i];
            } else if (a == "--replay") {
                rep = argv[++i];
            } else if (a == "--thorough") {
                R.tier = "thorough";
            } else if (a == "--phase") {
                only = argv[++i];
            } else if (a == "--workers") {
                R.W = static_cast<unsigned>(atoi(argv[++i]));
            }
        }
        if (getenv("MC_CRASHONLY") != nullptr) { // development aid
            crashOnly = true;
        }
        R.thorough = R.tier == "thorough";
        R.phases   = std::move(phases);
        R.deadline = t0 + (R.thorough ? 840. : 420.);
        {
            std::ifstream kf(root + "/known_findings.txt");
            std::string   l;
            while (std::getline(kf, l)) {
                // format: known: property=<id> key=<key> | <what fails>
                if (l.rfind("known: property=" + prop + " key=", 0) == 0) {
                    const auto b = l.find("key=") + 4;
                    R.known.insert(l.substr(b, l.find(" |") - b));
                }
            }
        }
        R.all = static_cast<WorkerShm*>(mmap(nullptr, sizeof(WorkerShm) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        R.states = static_cast<std::uint64_t*>(mmap(nullptr, STATECAP * 8 * R.W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (R.all == MAP_FAILED || R.states == MAP_FAILED) {
            fprintf(stderr, "mc: cannot map shared memory\n");
            return 3;
        }
        auto* statesBase = R.states;

        if (!rep.empty()) {
            std::ifstream         f(rep);
            std::string           w;
            unsigned              ph = 0;
            std::vector<unsigned> path;
            while (f >> w) {
                if (w == "phase:") {
                    f >> w;
                    for (unsigned i = 0; i < R.phases.size(); ++i) {
                        if (R.phases[i].name == w) {
                            ph = i;
                        }
                    }
                } else if (w == "tier:") {
                    f >> w;
                    R.tier     = w;
                    R.thorough = w == "thorough";
                } else if (w == "choices:") {
                    std::string l;
                    std::getline(f, l);
                    std::istringstream is(l);
                    unsigned           x = 0;
                    while (is >> x) {
                        path.push_back(x);
                    }
                    break;
                }
            }
            const auto o = replayAlone(ph, path, 600);
            printf("%s\n%s\n", o.trace.c_str(), o.bad ? ("VIOLATED: " + o.msg).c_str() : "held");
            return o.bad ? 1 : 0;
        }

        std::vector<unsigned> todo;
        for (unsigned i = 0; i < R.phases.size(); ++i) {
            if (!only.empty() && R.phases[i].name != only) {
                continue;
            }
            if ((R.phases[i].thorough && !R.thorough) || (R.phases[i].quickOnly && R.thorough)) {
                continue;
            }
            todo.push_back(i);
        }
        auto workerBody = [&] {
            R.states = statesBase + static_cast<std::size_t>(R.wid) * STATECAP;
            for (const auto p: todo) {
                const double t = now();
                runPhase(p);
                if (const char* log = getenv("MC_TIMES"); log != nullptr && R.wid == 0) { // development aid
                    if (FILE* o = fopen(log, "a"); o != nullptr) {
                        fprintf(o, "%7.2f %s\n", now() - t, R.phases[p].name.c_str());
                        fclose(o);
                    }
                }
            }
        };

        struct Cand {
            unsigned              phase;
            std::vector<unsigned> path;
            std::string           msg;
            std::string           key;
            unsigned              wid;
            std::string           trace;
        };
        std::vector<Cand>  cands;
        std::vector<pid_t> pids(R.W);
        fflush(nullptr);
        if (crashOnly) {
            errFd = memfd_create("report", 0);
        }
        for (unsigned w = 0; w < R.W; ++w) {
            pids[w] = spawn(w, workerBody);
        }
        std::vector<std::uint64_t> lastTick(R.W, 0);
        std::vector<double>        lastTime(R.W, now());
        unsigned                   live = R.W;
        auto candOf = [&](unsigned w, const std::string& why) {
            auto& s = R.all[w];
            Cand  c;
            c.phase = s.phase;
            c.wid   = w;
            for (unsigned i = 0; i < s.len; ++i) {
                c.path.push_back(s.val[i]);
            }
            c.msg = why;
            c.key = s.key;
            return c;
        };
        int broken = 0;
        while (live > 0) {
            usleep(5000);
            for (unsigned w = 0; w < R.W; ++w) {
                if (pids[w] == 0) {
                    continue;
                }
                int         st = 0;
                const pid_t r  = waitpid(pids[w], &st, WNOHANG);
                if (r == pids[w]) {
                    pids[w] = 0;
                    --live;
                    if (WIFSIGNALED(st)) {
                        if (WTERMSIG(st) == SIGKILL) {
                            broken = 1; // ended from outside (memory guard)
                        } else {
                            cands.push_back(candOf(w, std::string("the library crashes: ") + strsignal(WTERMSIG(st))));
                        }
                    } else if (WEXITSTATUS(st) == 10) {
                        cands.push_back(candOf(w, R.all[w].msg));
                    } else if (WEXITSTATUS(st) != 0) {
                        cands.push_back(candOf(w, "the execution ended the process with status " + std::to_string(WEXITSTATUS(st))));
                    }
                    continue;
                }
                if (R.all[w].tick != lastTick[w]) {
                    lastTick[w] = R.all[w].tick;
                    lastTime[w] = now();
                } else if (now() - lastTime[w] > 100) {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    pids[w] = 0;
                    --live;
                    cands.push_back(candOf(w, "execution does not terminate"));
                }
            }
            if (!cands.empty()) { // stop early: one confirmed violation is enough
                for (unsigned w = 0; w < R.W; ++w) {
                    if (pids[w] != 0) {
                        kill(pids[w], SIGKILL);
                        int st = 0;
                        waitpid(pids[w], &st, 0);
                        pids[w] = 0;
                    }
                }
                break;
            }
        }
        std::set<std::string> knownSeen;
        for (unsigned w = 0; w < R.W; ++w) {
            for (unsigned k = 0; k < R.all[w].nKnown; ++k) {
                knownSeen.insert(R.all[w].known[k]);
            }
        }
        for (const auto& k: knownSeen) {
            printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.c_str());
        }
        bool reported = false;
        for (auto& c: cands) {
            auto save = R.all[c.wid];
            auto o    = replayAlone(c.phase, c.path, 200);
            bool hist = false;
            if (!o.bad) {
                // it depends on what the same worker did before: repeat that worker's whole exploration
                fflush(nullptr);
                memset(static_cast<void*>(&R.all[c.wid]), 0, sizeof(WorkerShm));
                memset(statesBase + static_cast<std::size_t>(c.wid) * STATECAP, 0, STATECAP * 8);
                const pid_t p  = spawn(c.wid, workerBody);
                int         st = 0;
                waitpid(p, &st, 0);
                const bool same = (WIFSIGNALED(st) || WEXITSTATUS(st) != 0);
                if (same) {
                    o.bad = true;
                    o.msg = c.msg + " (only after the preceding executions of worker " + std::to_string(c.wid) + ")";
                    hist  = true;
                }
                R.all[c.wid] = save;
            }
            if (!o.bad) {
                fprintf(stderr, "mc: a reported failure did not reproduce: %s\n", c.msg.c_str());
                broken = 1;
                continue;
            }
            mkdir((root + "/replay").c_str(), 0777);
            const std::string f = root + "/replay/" + prop + "-" + R.phases[c.phase].name + ".txt";
            std::ofstream     os(f);
            os << "property: " << prop << "\ntier: " << R.tier << "\nphase: " << R.phases[c.phase].name << "\nchoices:";
            for (const auto x: c.path) {
                os << " " << x;
            }
            os << "\nmessage: " << o.msg << "\n";
            if (hist) {
                os << "note: needs the earlier executions of worker " << c.wid << "; rerun the whole check to reproduce\n";
            }
            os << "re-run: /verif/run.sh " << prop << " --replay " << f << "\ntrace:\n"
               << o.trace;
            os.close();
            printf("%s/%s: %s\n", prop.c_str(), R.phases[c.phase].name.c_str(), o.msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", prop.c_str(), f.c_str());
            reported = true;
            break;
        }
        R.states = statesBase;
        finish(root, info, seedE != nullptr ? seedE : "0", t0, reported ? 1 : 0, knownSeen, todo);
        fflush(nullptr);
        if (reported) {
            return 1;
        }
        return broken != 0 ? 2 : 0;
    }
} // namespace mc
