// C35: packages are independent of each other, also when used from two threads.
// WITH: checks/C35_threads.cc -fsanitize=thread -fno-gnu-unique -fno-builtin-memset -Ddd=ddt -Dddx=ddxt
// LINK: -rdynamic -pthread -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort
#include "C35_common.hpp"
void c35Cycles();
void c35Pairs();
namespace {
    // ---- what can be seen of a package ---------------------------------------------------------------------------
    struct Obs {
        std::vector<std::uint64_t> x;
        std::vector<double>        y;
        bool                       applied = true;
    };
    // how many density matrix nodes are stored depends on addresses
    template<class P>
    Obs look(Side<P>& s) {
        auto&         p  = *s.p;
        auto&         m  = *s.m;
        std::uint64_t id = 0;
        for (const auto& e: p.getIdentityTable()) {
            id += e.p != nullptr ? 1 : 0;
        }
        Obs o{{p.qubits(), p.vUniqueTable.getNodeCount(), p.vUniqueTable.getActiveNodeCount(), p.mUniqueTable.getNodeCount(), p.mUniqueTable.getActiveNodeCount(), p.dUniqueTable.getNodeCount() > 0 ? 1U : 0U, p.dUniqueTable.getActiveNodeCount() > 0 ? 1U : 0U, p.cn.complexTable.getCount(), p.cn.cacheCount(), p.vUniqueTable.getPeakNodeCount(), p.mUniqueTable.getPeakNodeCount(), p.vUniqueTable.getMaxActiveNodes(), p.mUniqueTable.getMaxActiveNodes(), p.vUniqueTable.getAllocations(), p.mUniqueTable.getAllocations(), p.cn.complexTable.getAllocations(), p.cn.complexTable.getPeakCount(), id}, {}};
        for (int k = 0; k < 2; ++k) {
            o.x.push_back(m.hv[k] ? 1 : 0);
            if (m.hv[k]) {
                for (const auto& c: vec(m.v[k], s.n)) {
                    o.y.push_back(c.real());
                    o.y.push_back(c.imag());
                }
                o.x.push_back(countNodes(m.v[k]));
                o.x.push_back(p.size(m.v[k]));
            }
            o.x.push_back(m.hm[k] ? 1 : 0);
            if (m.hm[k]) {
                for (const auto& c: mat(m.m[k], s.n).a) {
                    o.y.push_back(c.real());
                    o.y.push_back(c.imag());
                }
                o.x.push_back(countNodes(m.m[k]));
                o.x.push_back(p.size(m.m[k]));
            }
        }
        o.x.push_back(m.hd ? 1 : 0);
        return o;
    }
    const char* const WHAT[] = {"qubits", "state nodes", "active state nodes", "matrix nodes", "active matrix nodes", "density matrix nodes", "active density matrix nodes", "numbers", "temporary numbers", "peak number of state nodes", "peak number of matrix nodes", "most active state nodes", "most active matrix nodes", "state node allocations", "matrix node allocations", "number allocations", "peak number of numbers", "identity table entries"};
    void same(const Obs& a, const Obs& b, const std::string& what) {
        MC_CHECK(a.applied == b.applied && a.x.size() == b.x.size() && a.y.size() == b.y.size(), what << ": other diagrams than without the second package");
        for (std::size_t k = 0; k < a.x.size(); ++k) {
            MC_CHECK(a.x[k] == b.x[k], what << ": " << a.x[k] << " " << (k < std::size(WHAT) ? WHAT[k] : "nodes of a diagram") << ", without the second package " << b.x[k]);
        }
        for (std::size_t k = 0; k < a.y.size(); ++k) {
            MC_CHECK(std::abs(a.y[k] - b.y[k]) < 1e-11, what << ": " << a.y[k] << ", without the second package " << b.y[k]);
        }
    }
    // what a package shows that is alone: after creation and after each of the operations
    template<class P>
    const std::vector<Obs>& alone(int n, const std::vector<unsigned>& ops) {
        static std::map<std::pair<int, std::vector<unsigned>>, std::vector<Obs>> memo;
        auto& r = memo[{n, ops}];
        if (r.empty()) {
            const mc::Reference quiet;
            Side<P>             s(n);
            r.push_back(look(s));
            for (const auto o: ops) {
                const bool a = s.act(o);
                r.push_back(look(s));
                r.back().applied = a;
            }
        }
        return r;
    }
    // ---- all interleavings of operations --------------------------------------------------------------------------
    // the first package does two operations, the second one; the second at every point; both are looked at after every
    // operation of either
    template<bool ALL>
    void interleavings() {
        const unsigned cfg = mc::choose(ALL ? 4 : 2, "cfgs") * (ALL ? 1 : 3); // quick: both small or both larger
        const unsigned sz  = mc::choose(ALL ? 3 : 2, "sizes");
        const unsigned a   = mc::choose(AllOps, "first package");
        const unsigned b   = mc::choose(AllOps, "second package");
        static const std::vector<unsigned> NEXT = {Collect, MMul, XReset};
        std::vector<unsigned>              next;
        if (ALL) {
            for (unsigned k = 0; k < AllOps; ++k) {
                next.push_back(k);
            }
        } else {
            next = NEXT;
        }
        withTwo(cfg, [&](auto ta, auto tb) {
            using A = Pkg<typename decltype(ta)::type>;
            using B = Pkg<typename decltype(tb)::type>;
            for (const auto a2: next) {
                const auto& ra = alone<A>(SIZES[sz][0], {a, a2});
                const auto& rb = alone<B>(SIZES[sz][1], {b});
                for (unsigned at = 0; at < 3; ++at) {
                    mc::alive();
                    Side<A> x(SIZES[sz][0]);
                    Side<B> y(SIZES[sz][1]);
                    unsigned i = 0;
                    unsigned j = 0;
                    const auto both = [&](const std::string& what) {
                        auto ox    = look(x);
                        auto oy    = look(y);
                        ox.applied = ra[i].applied;
                        oy.applied = rb[j].applied;
                        same(ox, ra[i], "first package, after " + what);
                        same(oy, rb[j], "second package, after " + what);
                    };
                    both("creation of both");
                    for (unsigned k = 0; k < 3; ++k) {
                        if (k == at) {
                            const bool did = y.act(b);
                            ++j;
                            MC_CHECK(did == rb[j].applied, name(b) << " in the second package does not apply");
                            both(std::string(name(b)) + " in the second");
                        } else {
                            const unsigned o   = i == 0 ? a : a2;
                            const bool     did = x.act(o);
                            ++i;
                            MC_CHECK(did == ra[i].applied, name(o) << " in the first package does not apply");
                            both(std::string(name(o)) + " in the first");
                        }
                    }
                    x.m->verify("the first package's operations");
                    y.m->verify("the second package's operations");
                }
            }
        });
    }
    // ---- one package after the other, in the same memory ------------------------------------------------------------
    void lifetimes() {
        const unsigned cfg = mc::choose(mc::thorough() ? 4 : 2, "cfgs") * (mc::thorough() ? 1 : 3);
        const unsigned sz  = mc::choose(3, "sizes");
        const unsigned end = mc::choose(3, "end of the first");
        const unsigned a   = mc::choose(AllOps, "first package");
        withTwo(cfg, [&](auto ta, auto tb) {
            using A = Pkg<typename decltype(ta)::type>;
            using B = Pkg<typename decltype(tb)::type>;
            for (unsigned b = 0; b < AllOps; ++b) {
                const auto& rb = alone<B>(SIZES[sz][1], {b});
                mc::alive();
                auto x = std::make_unique<Side<A>>(SIZES[sz][0]);
                (void)x->act(a);
                if (end == 0) {
                    x.reset();
                } else if (end == 1) {
                    x->m->release();
                    x.reset();
                }
                Side<B> y(SIZES[sz][1]);
                same(look(y), rb[0], std::string("new package after another one did ") + name(a));
                if (end == 2) {
                    x.reset(); // while the second is in use
                    same(look(y), rb[0], std::string("package after the end of another one that did ") + name(a));
                }
                const bool did = y.act(b);
                auto       o   = look(y);
                o.applied      = did;
                same(o, rb[1], std::string(name(b)) + " after the end of another package that did " + name(a));
                y.m->verify("operations after the end of another package");
            }
        });
    }
    // ---- copies between packages --------------------------------------------------------------------------------------
    void copies() {
        const unsigned cfg = mc::choose(4, "cfgs");
        const unsigned a   = mc::choose(AllOps, "first package");
        const unsigned b   = mc::choose(AllOps, "second package");
        const unsigned n   = 1 + mc::choose(3, "qubits");
        withTwo(cfg, [&](auto ta, auto tb) {
            using A = Pkg<typename decltype(ta)::type>;
            using B = Pkg<typename decltype(tb)::type>;
            auto    x = std::make_unique<Side<A>>(static_cast<int>(n));
            Side<B> y(static_cast<int>(n));
            (void)x->act(a);
            if (!x->m->hv[0] || !x->m->hm[0]) {
                mc::prune();
            }
            const auto before = look(*x);
            auto       v      = y.p->transfer(x->m->v[0]);
            y.p->incRef(v);
            auto m = y.p->transfer(x->m->m[0]);
            y.p->incRef(m);
            const V dv = x->m->dv[0];
            const M dm = x->m->dm[0];
            same(look(*x), before, "first package after its diagrams were copied");
            (void)y.act(b);
            if (b == XReset || b == XReborn) { // the copies are gone with it
                same(look(*x), before, std::string("first package after ") + name(b) + " in the one with the copies");
                x->m->verify("that");
                return;
            }
            same(look(*x), before, std::string("first package after ") + name(b) + " in the one with the copies");
            x->m->verify("operations on copies");
            x->p->garbageCollect(true);
            x->m->release();
            x->p->garbageCollect(true);
            x.reset();
            y.p->garbageCollect(true);
            MC_CHECK(ref::close(vec(v, static_cast<int>(n)), dv, 1e-9) && ref::close(mat(m, static_cast<int>(n)), dm, 1e-9), "copies in the second package changed with the end of the first, after " << name(a) << " and " << name(b));
            y.m->verify("the end of the first package");
            MC_CHECK(y.p->size(v) == countNodes(v), "size of a copy");
            y.p->decRef(v);
            y.p->decRef(m);
            if (y.m->hd) { // nodes of density matrices may be stored repeatedly
                return;
            }
            y.m->release();
            y.p->garbageCollect(true);
            MC_CHECK(y.p->vUniqueTable.getNodeCount() == 0 && y.p->mUniqueTable.getNodeCount() == 0, "nodes remain after releasing the copies");
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C35", argc, argv,
                   {{"interleavings", 3, false, interleavings<false>},
                    {"interleavings-all", 3, true, interleavings<true>},
                    {"lifetimes", 3, false, lifetimes},
                    {"copies", 3, false, copies},
                    {"threads", 4, false, c35Cycles},
                    {"threads-pairs", 3, true, c35Pairs}},
                   {"two packages of two sizes and table configurations (thorough: three and four), each in a fixed start condition. Interleavings: every two operations of one package (the second out of three; thorough: all) with every operation of the other at every point, 58 operations including reset, destruction and creation, resizing; after every operation of either both show exactly what they show alone. Lifetimes: every operation in a package, then its end, before or while every operation runs in another one in the same memory. Copies: every pair of operations around a transfer between packages and the end of the first. Threads: one thread does all 58 operations, the other all 58 starting anywhere (thorough: also all pairs right after the start); the memory every single access touches is compared: no byte is touched by both with one of them writing, so all interleavings of the accesses are equivalent",
                    {"how often density matrix nodes are stored depends on addresses and is not compared", "code inside the C++ library's shared object is not instrumented; printing to std::cout and setTolerance (documented as global) are not part of the threads' operations"}});
}
