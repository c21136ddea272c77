// C38: no history touches memory outside live objects, released nodes or numbers, or has undefined behaviour.
// FLAGS: -g1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_SANITIZE_VECTOR=1 -DDD_PACKAGE_STORAGE_HOOKS -include mc/shadow.hpp
// LINK: -fsanitize=address,undefined
// PARTS: C03 C04 C05 C06 C08 C10 C12 C15 C25 C26 C27 C28 C30 C31 C32 C33 C34 C36 C37
// PARTS-THOROUGH: C01 C02 C07 C09 C11 C13 C14 C16 C17 C18 C19 C20 C21 C22 C23 C24 C29
#include "machine.hpp"
using namespace ddx;

extern int (*mcParts[])(int, char**);
extern "C" const char* __asan_default_options() { return "detect_leaks=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }
namespace {
    // what a history allocates is gone when the package is destroyed
    template<class F>
    void balanced(const F& f) {
        f(); // whatever is computed once and kept is there afterwards
        const auto before = mc::heap::live;
        const bool t      = mc::R.tracing;
        mc::R.tracing     = false;
        f();
        mc::R.tracing = t;
        if (mc::heap::live != before) {
            mc::failKey("crash", "destroying the package leaves " + std::to_string(static_cast<long long>(mc::heap::live - before)) + " bytes behind");
        }
    }
    void histories() {
        const unsigned n   = 1 + mc::choose(3, "qubits");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned L   = 1 + mc::choose(mc::thorough() ? 3 : 2, "length");
        unsigned       ops[3];
        for (unsigned i = 0; i < L; ++i) {
            ops[i] = mc::choose(OpCount, "operation");
        }
        const unsigned end = mc::choose(2, "release everything at the end");
        balanced([&] {
            withCfg(cfg, [&](auto t) {
                using P = Pkg<typename decltype(t)::type>;
                P          p(n);
                Machine<P> m(p, static_cast<int>(n));
                m.start();
                for (unsigned i = 0; i < L; ++i) {
                    if (!m.step(ops[i])) {
                        mc::prune();
                    }
                }
                if (end == 1) {
                    m.release();
                    p.garbageCollect(true);
                }
                mc::state(mc::mix(p.vUniqueTable.getNodeCount() * 64 + p.mUniqueTable.getNodeCount(), p.cn.complexTable.getCount()));
            });
        });
    }
    // a package that is reset, enlarged and used again and again
    void lives() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned n   = 1 + mc::choose(3, "qubits");
        unsigned       a[3];
        for (auto& x: a) {
            x = mc::choose(6, "step");
        }
        balanced([&] {
            withCfg(cfg, [&](auto t) {
                using P = Pkg<typename decltype(t)::type>;
                P        p(n);
                unsigned k = n;
                for (const auto x: a) {
                    Machine<P> m(p, static_cast<int>(n));
                    m.start();
                    for (const unsigned o: {MGen, VMul, DZero, DGate, Collect, VAdd, MKron, MPtr, VSer, Read}) {
                        (void)m.step(o);
                    }
                    switch (x) {
                        case 0: p.reset(); break;
                        case 1: p.clearUniqueTables(); p.clearComputeTables(); break;
                        case 2:
                            m.release();
                            p.resize(k += 60);
                            break;
                        case 3:
                            m.release();
                            p.garbageCollect(true);
                            break;
                        case 4:
                            m.release();
                            p.resize(k);
                            p.garbageCollect();
                            break;
                        default:
                            m.release();
                            p.reset();
                            p.reset();
                            p.resize(128);
                            k = 128;
                            break;
                    }
                    k = std::min(k, 68U);
                    mc::state(mc::mix(p.vUniqueTable.getNodeCount() * 64 + p.mUniqueTable.getNodeCount(), p.cn.complexTable.getCount()));
                }
            });
        });
    }
} // namespace
int main(int argc, char** argv) {
    std::vector<mc::Phase> all;
    mc::collecting = &all;
    for (auto* f = mcParts; *f != nullptr; ++f) {
        (*f)(argc, argv);
    }
    mc::collecting = nullptr;
    mc::crashOnly  = true;
    static const std::set<std::string> SKIP  = {"C17-direct"}; // looks at discarded nodes itself
    static const std::set<std::string> LATER = {"C06-builders-x-targets-x-controls", "C12-all-2-qubit-pairs", "C25-every-text-token", "C28-distances", "C28-structured", "C31-all-three-qubit-permutations", "C32-registers", "C33-releases-states", "C33-releases-matrices", "C34-histories", "C34-chains"};
    std::vector<mc::Phase>             phases{{"histories", 3, false, histories}, {"lives", 3, false, lives}};
    for (auto& p: all) {
        if (p.thorough || SKIP.count(p.name) != 0) {
            continue;
        }
        p.quickOnly = false;
        p.thorough  = LATER.count(p.name) != 0;
        p.body      = [b = p.body] { // within the bounds of the quick tier
            struct Quick {
                bool was = mc::R.thorough;
                Quick() { mc::R.thorough = false; }
                ~Quick() { mc::R.thorough = was; }
            } q;
            b();
        };
        phases.push_back(p);
    }
    return mc::run("C38", argc, argv, phases,
                   {"all histories of up to 2 (thorough 3) of the 45 operations on 1-3 qubits with every block of memory accounted for after the package is gone; all sequences of 3 resets, enlargements and collections; and the executions of the other checks (quick: those of C03-C06, C08, C10, C12, C15, C25-C28, C30-C34, C36, C37 without their longest phases; thorough: of all single-threaded checks), repeated under AddressSanitizer and UndefinedBehaviorSanitizer with heap blocks, nodes and numbers that are not in use marked as inaccessible and reused as late as possible",
                    {"only what the sanitizers report counts here: wrong results are left to the other checks", "reading memory that was never written is noticed only when it leads to an invalid address, bool or enumeration value (heap and stack are filled with a pattern)", "temporary numbers (ComplexCache) are not marked: their first entry may be used without being taken"}});
}
