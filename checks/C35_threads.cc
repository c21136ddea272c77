// C35, second part: two threads.  Compiled with every memory access instrumented; the library and the harness get
// another namespace (-Ddd=ddt -Dddx=ddxt) so that the two parts of the check share no instantiations.
#define MC_SECOND
#include "races.hpp"

#include "C35_common.hpp"
namespace {
    // ---- two threads: which memory does each of them touch ------------------------------------------------------------
    template<class A, class B, class F>
    void pairOf(int na, int nb, unsigned first, F work) {
        mc::races::begin();
        std::unique_ptr<Side<A>> x;
        std::unique_ptr<Side<B>> y;
        mc::races::Actor         t[2]    = {mc::races::Actor(0), mc::races::Actor(1)};
        const char*              last[2] = {"nothing", "nothing"};
        const auto               run     = [&](unsigned who, const char* what, const std::function<void()>& f) {
            last[who] = what;
            mc::alive();
            t[who].run(f);
            if (mc::races::conflict != 0) {
                mc::fail(std::string("data race: ") + last[who] + " in one package " + mc::races::describe() + " (the other thread's last operation in its own package: " + last[1 - who] + ")");
            }
        };
        for (const unsigned who: {first, 1 - first}) {
            run(who, "creating a package", [&] {
                if (who == 0) {
                    x = std::make_unique<Side<A>>(na);
                } else {
                    y = std::make_unique<Side<B>>(nb);
                }
            });
        }
        work([&](unsigned who, unsigned o, bool again) {
            run(who, name(o), [&] {
                const auto go = [&](auto& s) {
                    if (again) {
                        s.m->start();
                    }
                    (void)s.act(o);
                };
                if (who == 0) {
                    go(*x);
                } else {
                    go(*y);
                }
            });
        });
        x->m->verify("the first thread's operations");
        y->m->verify("the second thread's operations");
        mc::state(mc::races::accesses);
        for (const unsigned who: {first, 1 - first}) {
            run(who, "destroying a package", [&] {
                if (who == 0) {
                    x.reset();
                } else {
                    y.reset();
                }
            });
        }
    }
    // the second thread does everything; the first one everything, starting anywhere
    void cycles() {
        const unsigned cfg   = mc::choose(mc::thorough() ? 4 : 2, "cfgs") * (mc::thorough() ? 1 : 3);
        const unsigned sz    = mc::choose(mc::thorough() ? 3 : 2, "sizes");
        const unsigned first = mc::choose(2, "thread that starts");
        const unsigned a     = mc::choose(AllOps, "first operation");
        withTwo(cfg, [&](auto ta, auto tb) {
            using A = Pkg<typename decltype(ta)::type>;
            using B = Pkg<typename decltype(tb)::type>;
            pairOf<A, B>(SIZES[sz][0], SIZES[sz][1], first, [&](const auto& act) {
                for (unsigned k = 0; k < AllOps; ++k) {
                    const unsigned o = (a + k) % AllOps;
                    if (first == 0) {
                        act(0, o, k % 10 == 9);
                    }
                    act(1, k, k % 12 == 11);
                    if (first == 1) {
                        act(0, o, k % 10 == 9);
                    }
                }
            });
        });
    }
    // ... and every pair of operations right after the start
    void pairs() {
        const unsigned cfg = mc::choose(4, "cfgs");
        const unsigned sz  = mc::choose(3, "sizes");
        const unsigned a   = mc::choose(AllOps, "first operation");
        const unsigned b   = mc::choose(AllOps, "second operation");
        withTwo(cfg, [&](auto ta, auto tb) {
            using A = Pkg<typename decltype(ta)::type>;
            using B = Pkg<typename decltype(tb)::type>;
            pairOf<A, B>(SIZES[sz][0], SIZES[sz][1], 0, [&](const auto& act) {
                act(0, a, false);
                for (unsigned o = 0; o < AllOps; ++o) {
                    act(1, o, o % 12 == 11);
                }
                act(0, b, false);
            });
        });
    }
} // namespace
void c35Cycles() { cycles(); }
void c35Pairs() { pairs(); }
