// C34: after a reset a package behaves like a new one; enlarging keeps diagrams valid.
#include "machine.hpp"

#include <cstring>
using namespace ddx;
namespace {
    struct Obs {
        std::string                what;
        std::vector<std::uint64_t> x{}; // compared exactly
        std::vector<double>        y{}; // compared within 1e-11
    };
    using Trace = std::vector<Obs>;
    std::uint64_t bits(double d) {
        std::uint64_t u = 0;
        d += 0.; // -0 and 0 are the same number
        std::memcpy(&u, &d, sizeof d);
        return u;
    }
    const char* const COUNTERS[] = {"qubits", "state nodes", "active state nodes", "matrix nodes", "active matrix nodes", "density matrix nodes", "active density matrix nodes", "numbers", "temporary numbers", "peak number of state nodes", "peak number of matrix nodes", "most active state nodes", "most active matrix nodes", "state node allocations", "matrix node allocations", "density matrix node allocations", "number allocations", "peak number of numbers", "collection wanted (states)", "collection wanted (matrices)", "collection wanted (numbers)", "identity table entries"};
    // how often a density matrix node is stored depends on which cached results survive, so on addresses: only whether there are any
    template<class P>
    std::vector<std::uint64_t> counters(P& p) {
        std::uint64_t id = 0;
        for (const auto& e: p.getIdentityTable()) {
            id += e.p != nullptr ? 1 : 0;
        }
        return {p.qubits(), p.vUniqueTable.getNodeCount(), p.vUniqueTable.getActiveNodeCount(), p.mUniqueTable.getNodeCount(), p.mUniqueTable.getActiveNodeCount(), p.dUniqueTable.getNodeCount() > 0 ? 1U : 0U, p.dUniqueTable.getActiveNodeCount() > 0 ? 1U : 0U, p.cn.complexTable.getCount(), p.cn.cacheCount(), p.vUniqueTable.getPeakNodeCount(), p.mUniqueTable.getPeakNodeCount(), p.vUniqueTable.getMaxActiveNodes(), p.mUniqueTable.getMaxActiveNodes(), p.vUniqueTable.getAllocations(), p.mUniqueTable.getAllocations(), 0, p.cn.complexTable.getAllocations(), p.cn.complexTable.getPeakCount(), p.vUniqueTable.possiblyNeedsCollection() ? 1U : 0U, p.mUniqueTable.possiblyNeedsCollection() ? 1U : 0U, p.cn.complexTable.possiblyNeedsCollection() ? 1U : 0U, id};
    }
    template<class P>
    std::vector<std::uint64_t> statistics(P& p) {
        // hits and collisions of node tables depend on addresses; calls and runs of the collection do not
        std::ostringstream os;
        p.vUniqueTable.printStatistics(os);
        p.mUniqueTable.printStatistics(os);
        p.dUniqueTable.printStatistics(os);
        std::vector<std::uint64_t> r;
        for (const auto& [k, v]: p.cn.complexTable.getStatistics()) {
            if (k == "gcCalls" || k == "gcRuns") {
                r.push_back(v);
            }
        }
        std::string word;
        std::string prev;
        for (std::istringstream is(os.str()); is >> word; prev = word) {
            if (prev == "calls:" || prev == "runs:") {
                r.push_back(std::strtoull(word.c_str(), nullptr, 10));
            }
        }
        return r;
    }
    // a fixed piece of work with everything observable recorded
    template<class P>
    Trace probe(P& p, int n, unsigned kind, bool light = false) {
        Trace t;
        const auto cnt = [&](const std::string& w) { t.push_back({w + " (counters)", counters(p)}); };
        cnt("start");
        if (kind >= 1) { // numbers next to ones used before: a new package gives back exactly what was asked for
            Obs o{"numbers", {}};
            for (const double d: {7e-14, -7e-14, 3e-13}) {
                for (const double b: {0.5, 0.6, 0.8, 0.25, 0.1, 0.75, 0.3, 0.2, 1. / 3, 0.36, 0.64}) {
                    const auto c = p.cn.lookup(b + d, -b + d / 2);
                    o.x.push_back(bits(val(c.r)));
                    o.x.push_back(bits(val(c.i)));
                }
            }
            t.push_back(o);
        }
        Machine<P> m(p, n);
        for (unsigned i = 0; i < OpCount; ++i) {
            // a fixed order that lets as many operations as possible apply
            const unsigned o = kind == 2 ? OpCount - 1 - i : i;
            if (i == 0 || i == OpCount / 2) {
                m.start();
            }
            if (light && (o == VSer || o == MSer || o == VTrans || o == Read)) {
                continue;
            }
            if (!m.step(o)) {
                continue;
            }
            Obs r{opName(o), {}};
            for (int k = 0; k < 2; ++k) {
                if (m.hv[k]) {
                    for (const auto& c: vec(m.v[k], n)) {
                        r.y.push_back(c.real());
                        r.y.push_back(c.imag());
                    }
                    r.x.push_back(countNodes(m.v[k]));
                }
                if (m.hm[k]) {
                    for (const auto& c: mat(m.m[k], n).a) {
                        r.y.push_back(c.real());
                        r.y.push_back(c.imag());
                    }
                    r.x.push_back(countNodes(m.m[k]));
                    r.x.push_back(m.m[k].isTerminal() ? 0 : (m.m[k].p->isIdentity() ? 1 : 0) + (m.m[k].p->isSymmetric() ? 2 : 0));
                }
            }
            if (m.hd) {
                for (const auto& row: p.getDensityMatrix(m.d)) {
                    for (const auto& c: row) {
                        r.y.push_back(c.real());
                        r.y.push_back(c.imag());
                    }
                }
            }
            t.push_back(std::move(r));
            if (i % 5 == 0) {
                cnt(opName(o));
            }
            if (i % 9 == 0) {
                m.verify(opName(o));
            }
        }
        m.verify("the probe");
        m.release();
        cnt("release");
        p.garbageCollect(true);
        cnt("collection");
        t.push_back({"end (statistics)", statistics(p)});
        return t;
    }
    void same(const Trace& a, const Trace& b, const std::string& what) {
        MC_CHECK(a.size() == b.size(), what << ": different operations apply");
        for (std::size_t i = 0; i < a.size(); ++i) {
            MC_CHECK(a[i].what == b[i].what, what << ": " << a[i].what << " instead of " << b[i].what);
            MC_CHECK(a[i].x.size() == b[i].x.size(), what << ", " << a[i].what << ": a different number of results");
            for (std::size_t k = 0; k < a[i].x.size(); ++k) {
                if (a[i].x[k] == b[i].x[k]) {
                    continue;
                }
                if (a[i].what.find("(counters)") != std::string::npos) {
                    mc::fail(what + ", " + a[i].what + ": " + std::to_string(a[i].x[k]) + " " + COUNTERS[k] + ", a new package has " + std::to_string(b[i].x[k]));
                }
                mc::fail(what + ", " + a[i].what + ": value " + std::to_string(k) + " differs from that of a new package");
            }
            MC_CHECK(a[i].y.size() == b[i].y.size(), what << ", " << a[i].what << ": a different number of results");
            for (std::size_t k = 0; k < a[i].y.size(); ++k) {
                MC_CHECK(std::abs(a[i].y[k] - b[i].y[k]) < 1e-11, what << ", " << a[i].what << ": " << a[i].y[k] << ", a new package gives " << b[i].y[k]);
            }
            mc::state(mc::mix(i, a[i].x.empty() ? 0 : a[i].x.back()));
        }
    }
    // reference traces of new packages; computed once per process
    template<class P>
    const Trace& fresh(int n, unsigned kind, bool light = false) {
        static std::map<std::array<int, 3>, Trace> cache;
        auto&                                      t = cache[{n, static_cast<int>(kind), light ? 1 : 0}];
        if (t.empty()) {
            const mc::Reference quiet;
            P p(static_cast<std::size_t>(n));
            t = probe(p, n, kind, light);
        }
        return t;
    }
    template<class P>
    void leak(P& p, unsigned k) { // temporaries that are never returned
        for (unsigned i = 0; i < k; ++i) {
            auto c = p.cn.getCached(0.1 + i, -0.7);
            (void)c;
        }
    }
    // ---- all short histories ------------------------------------------------------------------------------------
    template<bool THREE>
    void histories() {
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned n    = 1 + mc::choose(3, "qubits");
        const unsigned mode = mc::choose(4, "mode");
        const unsigned a    = mc::choose(OpCount, "first");
        const unsigned c    = THREE ? mc::choose(OpCount, "third") : 0;
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            const auto p = std::make_unique<P>(n);
            for (unsigned b = 0; b < OpCount; ++b) {
                const std::string what = std::string("reset after ") + opName(a) + ", " + opName(b) + (THREE ? std::string(", ") + opName(c) : "") + (mode == 0 ? ", everything released" : mode == 1 ? ", diagrams still referenced" : mode == 2 ? ", temporaries not returned" : ", collected");
                MC_NOTE(what);
                mc::alive();
                {
                    Machine<P> m(*p, static_cast<int>(n));
                    m.start();
                    if (!m.step(a)) {
                        p->reset();
                        break;
                    }
                    if (!m.step(b)) {
                        p->reset();
                        continue;
                    }
                    if (THREE && !m.step(c)) {
                        p->reset();
                        continue;
                    }
                    switch (mode) {
                        case 0: m.release(); break;
                        case 1: break;
                        case 2: leak(*p, 1 + (a + b) % 5); break;
                        default:
                            m.release();
                            p->garbageCollect(true);
                            break;
                    }
                }
                p->reset();
                const bool light = (a + b) % 8 != 0;
                same(probe(*p, static_cast<int>(n), (a + b) % 3, light), fresh<P>(static_cast<int>(n), (a + b) % 3, light), what);
                p->reset();
            }
        });
    }
    // ---- longer histories: reset as one of the operations -------------------------------------------------------
    void resets() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned n   = 1 + mc::choose(3, "qubits");
        const unsigned k   = 1 + mc::choose(mc::thorough() ? 4 : 3, "rounds");
        static const std::vector<std::vector<unsigned>> S = {{}, {VGen, MGen, VMul, MMul}, {DZero, DGate, DGate2, DDrop}, {Collect, Collect, Collect, Collect}, {MT, MAdj, MKron, MPtr}, {VMeasure0, VMeasureA, VSer, VTrans}, {MTof, MSwap2, MIdent, MAnc}, {ClearC, Read, VDelete, MDelete}};
        std::vector<unsigned> seq;
        for (unsigned i = 0; i < k; ++i) {
            seq.push_back(mc::choose(static_cast<unsigned>(S.size()), "work"));
        }
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            P           p(n);
            std::string what = "resets";
            for (const auto s: seq) {
                Machine<P> m(p, static_cast<int>(n));
                if (s != 0) {
                    m.start();
                }
                for (const auto o: S[s]) {
                    (void)m.step(o);
                    what += std::string(", ") + opName(o);
                }
                if (s % 2 == 0) {
                    m.verify(what.c_str());
                }
                p.reset();
                what += ", reset";
            }
            same(probe(p, static_cast<int>(n), k % 3, true), fresh<P>(static_cast<int>(n), k % 3, true), what);
        });
    }
    // ---- states that do not fit the first allocation; moved collection limits -----------------------------------
    void large() {
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned mode = mc::choose(8, "mode");
        const unsigned twice = mc::choose(2, "twice");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            const unsigned n = mode == 2 ? 9 : 3;
            // how many numbers fit before a collection is wanted
            const auto room = [](P& p, Trace& tr) {
                Obs o{"collection", {}};
                for (unsigned i = 0; i < 1500; ++i) {
                    (void)p.cn.lookup(0.01 + i * 0.0005, 0.);
                    o.x.push_back(p.cn.complexTable.possiblyNeedsCollection() ? 1 : 0);
                }
                tr.push_back(o);
            };
            // what the package does with that much data
            const auto work = [&](P& p, Trace& tr) {
                switch (mode) {
                    case 0: { // many numbers
                        Obs o{"numbers", {}};
                        for (unsigned i = 0; i < 5000; ++i) {
                            const auto c = p.cn.lookup(0.1 + i * 1e-4, i * 3e-5);
                            o.x.push_back(bits(val(c.r)));
                            o.x.push_back(bits(val(c.i)));
                        }
                        tr.push_back(o);
                        break;
                    }
                    case 1: leak(p, 5000); break;
                    case 2: { // many nodes
                        V x(512);
                        for (std::size_t i = 0; i < 512; ++i) {
                            x[i] = C{0.01 * static_cast<double>(i % 37) - 0.1, 0.003 * static_cast<double>(i * i % 101)};
                        }
                        const auto e = p.makeStateFromVector(cvec(x));
                        p.incRef(e);
                        Obs o{"state", {}};
                        for (const auto& c: vec(e, 9)) {
                            o.x.push_back(bits(c.real()));
                            o.x.push_back(bits(c.imag()));
                        }
                        o.x.push_back(countNodes(e));
                        tr.push_back(o);
                        break;
                    }
                    case 3: { // the limit for collecting numbers falls when little is left
                        const auto c = p.cn.lookup(0.3, 0.7);
                        dd::ComplexNumbers::incRef(c);
                        for (unsigned i = 0; i < 14; ++i) {
                            p.garbageCollect(true);
                        }
                        break;
                    }
                    case 4: { // referenced numbers and unreferenced ones
                        for (unsigned i = 0; i < 3000; ++i) {
                            const auto c = p.cn.lookup(0.1 + i * 1e-4, i * 3e-5);
                            if (i % 2 == 0) {
                                dd::ComplexNumbers::incRef(c);
                            }
                        }
                        p.garbageCollect(true);
                        break;
                    }
                    case 5: { // nodes returned to the free list, then a reset
                        for (unsigned i = 0; i < 40; ++i) {
                            V x(8);
                            for (std::size_t q = 0; q < 8; ++q) {
                                x[q] = C{0.1 * static_cast<double>((i + q) % 11), 0.07 * static_cast<double>(i)};
                            }
                            p.incRef(p.makeStateFromVector(cvec(x)));
                            p.makeDDFromMatrix(cmat(matPat(3, static_cast<int>(i) % 16)));
                            if (i % 8 == 7) {
                                p.garbageCollect(true);
                            }
                        }
                        break;
                    }
                    case 6: { // density matrices with many nodes
                        auto d = p.makeZeroDensityOperator(3);
                        p.incRef(d);
                        for (unsigned i = 0; i < 12; ++i) {
                            const auto g = p.makeGateDD(dd::RYmat(0.3 + i * 0.1), 3, static_cast<dd::Qubit>(i % 3));
                            p.applyOperationToDensity(d, g, true);
                        }
                        Obs o{"density matrix", {}};
                        for (const auto& row: p.getDensityMatrix(d)) {
                            for (const auto& c: row) {
                                o.x.push_back(bits(c.real()));
                                o.x.push_back(bits(c.imag()));
                            }
                        }
                        tr.push_back(o);
                        break;
                    }
                    default: { // caches filled with results of large operands
                        const auto a = p.makeDDFromMatrix(cmat(matPat(3, 5)));
                        const auto b = p.makeDDFromMatrix(cmat(matPat(3, 7)));
                        const auto v = p.makeStateFromVector(cvec(vecPat(3, 5)));
                        p.multiply(a, b);
                        p.multiply(b, v);
                        p.add(a, b);
                        p.transpose(a);
                        p.conjugateTranspose(b);
                        p.innerProduct(v, v);
                        for (unsigned q = 0; q < 3; ++q) {
                            for (unsigned k = 1; k <= 3; ++k) {
                                p.makeIdent(static_cast<dd::QubitCount>(k));
                            }
                        }
                        break;
                    }
                }
                tr.push_back({"work (counters)", counters(p)});
                room(p, tr);
            };
            P p(n);
            Trace x;
            work(p, x);
            p.reset();
            {
                Trace a;
                Trace b;
                room(p, a);
                const auto q = std::make_unique<P>(n);
                room(*q, b);
                same(a, b, "new numbers after a reset");
                p.reset();
            }
            if (twice == 1) {
                Trace y;
                work(p, y);
                same(y, x, "the same work after a reset");
                p.reset();
            }
            Trace y;
            y.push_back({"reset (counters)", counters(p)});
            work(p, y);
            Trace z;
            P     q(n);
            z.push_back({"reset (counters)", counters(q)});
            work(q, z);
            same(y, z, "large work after a reset");
            p.reset();
            same(probe(p, static_cast<int>(std::min(n, 3U)), mode % 3), [&] {P r(n); return probe(r, static_cast<int>(std::min(n, 3U)), mode % 3); }(), "after large work and a reset");
        });
    }
    // ---- results kept by the operation tables ------------------------------------------------------------------
    void tables() {
        const unsigned cfg   = mc::choose(2, "cfg");
        const unsigned which = mc::choose(3, "table");
        const unsigned ref   = mc::choose(2, "referenced");
        const unsigned gc    = mc::choose(2, "collected");
        const unsigned grow  = mc::choose(2, "enlarged first");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            P p(3);
            if (grow == 1) {
                p.resize(5);
            }
            const unsigned     top = grow == 1 ? 4 : 2;
            const dd::Controls ctl{dd::Control{0}, dd::Control{2, dd::Control::Type::neg}};
            for (unsigned round = 0; round < 3; ++round) {
                // a new package knows nothing
                bool known = false;
                for (unsigned q = 0; q <= top; ++q) {
                    known = known || p.stochasticNoiseOperationCache.lookup(0, static_cast<dd::Qubit>(q)).p != nullptr;
                }
                known = known || p.toffoliTable.lookup(3, ctl, 1).p != nullptr;
                const auto g = p.makeGateDD(dd::Xmat, 3, ctl, 1);
                auto       d = p.makeZeroDensityOperator(3);
                known        = known || p.densityNoise.lookup(d, {1, 0}).p != nullptr;
                MC_CHECK(!known, "after " << round << " resets: a result from before a reset is still offered");
                if (ref == 1) {
                    p.incRef(g);
                    p.incRef(d);
                }
                switch (which) {
                    case 0: p.toffoliTable.insert(3, ctl, 1, g); break;
                    case 1: p.stochasticNoiseOperationCache.insert(0, static_cast<dd::Qubit>(round % (top + 1)), g); break;
                    default: p.densityNoise.insert(d, d, {1, 0}); break;
                }
                if (gc == 1) {
                    p.garbageCollect(true);
                    p.makeGateDD(dd::Hmat, 3, 0);
                }
                p.reset();
                // the memory is used for something else
                p.incRef(p.makeStateFromVector(cvec(vecPat(3, 5))));
                p.incRef(p.makeDDFromMatrix(cmat(matPat(3, 5))));
                if (round == 1) {
                    p.reset();
                }
            }
            mc::state(which);
        });
    }
    // numbers next to a boundary between buckets are found through the neighbouring bucket
    void boundaries() {
        const unsigned den  = mc::choose(4, "buckets");
        const unsigned half = mc::choose(2, "at");
        const unsigned side = mc::choose(2, "side");
        const unsigned off  = mc::choose(3, "distance");
        const unsigned grp  = mc::choose(8, "group");
        static const double D[] = {65536., 65537., 65535., 32768.};
        static const double O[] = {3e-14, 5e-14, 1e-13};
        using P                 = Pkg<Mid>;
        P p(2);
        const auto at = [&](unsigned k, double s) { return (k * 8 + grp + 1 + (half == 1 ? 0.5 : 0.)) / D[den] + s * O[off] * (side == 0 ? 1 : -1); };
        for (unsigned round = 0; round < 2; ++round) {
            if (round == 1) {
                p.reset();
            }
            // different positions in memory: the numbers of the second round do not replace those of the first one at once
            for (unsigned k = 0; k < 400; ++k) {
                const unsigned j = round == 0 ? k : 399 - k;
                const double   v = at(j, round == 0 ? -1 : 1);
                const auto     c = p.cn.lookup(v, 0.);
                MC_CHECK(val(c.r) == v, "after " << round << " resets: looking up " << v << " gives a number " << val(c.r) - v << " away; a new package gives exactly that number");
            }
            MC_CHECK(p.cn.complexTable.getCount() == 401, "after " << round << " resets: " << p.cn.complexTable.getCount() << " numbers instead of 401");
        }
        mc::state(mc::mix(den * 2 + half, side * 3 + off));
    }
    // sizes after a reset of a package with diagrams in use
    void resized() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned n   = 1 + mc::choose(3, "qubits");
        const unsigned N   = n + mc::choose(3, "more");
        const unsigned a   = mc::choose(OpCount, "operation");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            P p(n);
            for (unsigned round = 0; round < 2; ++round) {
                {
                    Machine<P> m(p, static_cast<int>(n));
                    m.start();
                    (void)m.step(a);
                }
                p.reset();
                p.resize(N);
                const std::string what = std::string("reset after ") + opName(a) + ", resized from " + std::to_string(n) + " to " + std::to_string(N);
                static std::map<std::array<unsigned, 3>, Trace> cache;
                auto&                                           x = cache[{n, N, cfg}];
                if (x.empty()) {
                    const mc::Reference quiet;
                    P                   r(N);
                    x = probe(r, static_cast<int>(n), 1, true);
                }
                same(probe(p, static_cast<int>(n), 1, true), x, what);
                p.reset();
                p.resize(n);
            }
        });
    }
    // the limit for collecting nodes rises when most of them are in use
    void limit() {
        const unsigned mode = mc::choose(mc::thorough() ? 2 : 1, "kind of node");
        using P             = dd::Package<>;
        const auto own = std::make_unique<P>(3);
        P&         p   = *own;
        std::vector<dd::vEdge> held;
        const auto             fill = [&](P& x, std::size_t upTo, bool ref) {
            std::size_t i = 0;
            if (mode == 0) {
                // single nodes: their successors are fixed, the weights differ
                while (x.vUniqueTable.getNodeCount() < upTo) {
                    const double a = 0.2 + static_cast<double>(i) * 2e-6;
                    const auto   e = x.makeDDNode(0, std::array{dd::vEdge{dd::vNode::terminal, x.cn.lookup(std::cos(a), 0)}, dd::vEdge{dd::vNode::terminal, x.cn.lookup(std::sin(a), 0)}});
                    if (ref) {
                        x.incRef(e);
                    }
                    if (++i % 1000 == 0) {
                        mc::alive();
                    }
                }
            } else {
                while (x.mUniqueTable.getNodeCount() < upTo) {
                    const double a = 0.1 + static_cast<double>(i) * 5e-6;
                    const auto   w = dd::mEdge{dd::mNode::terminal, x.cn.lookup(a, 0)};
                    const auto   e = x.makeDDNode(0, std::array{dd::mEdge::one, w, w, dd::mEdge::zero});
                    if (ref) {
                        x.incRef(e);
                    }
                    if (++i % 1000 == 0) {
                        mc::alive();
                    }
                }
            }
        };
        const auto needs = [&](P& x) { return mode == 0 ? x.vUniqueTable.possiblyNeedsCollection() : x.mUniqueTable.possiblyNeedsCollection(); };
        fill(p, 131072, true);
        MC_CHECK(needs(p), "131072 nodes do not ask for a collection");
        p.garbageCollect();
        MC_CHECK(!needs(p), "the limit did not rise although all nodes are in use");
        p.reset();
        MC_CHECK(p.vUniqueTable.getNodeCount() == 0 && p.mUniqueTable.getNodeCount() == 0 && p.vUniqueTable.getActiveNodeCount() == 0, "nodes left after a reset");
        fill(p, 131071, false);
        MC_CHECK(!needs(p), "a collection is asked for too early after a reset");
        fill(p, 131072, false);
        MC_CHECK(needs(p), "after a reset a collection is not asked for when a new package asks for one");
        p.reset();
        same(probe(p, 2, 1), [&] {const auto r = std::make_unique<P>(3); return probe(*r, 2, 1); }(), "after a raised limit and a reset");
        mc::state(mode);
    }
    // ---- enlarging ----------------------------------------------------------------------------------------------
    template<class P>
    struct Keep {
        dd::vEdge v;
        dd::mEdge m;
        V         x;
        M         y;
    };
    void enlarge() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned n   = 1 + mc::choose(3, "qubits");
        static const unsigned UP[] = {0, 1, 2, 3, 125};
        const unsigned up  = mc::choose(5, "by");
        const unsigned mid = mc::choose(4, "in between");
        const unsigned pat = mc::choose(8, "diagrams");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            const unsigned N = n + UP[up];
            P              p(n);
            std::vector<Keep<P>> kept;
            for (unsigned k = 0; k < 3; ++k) {
                Keep<P> e;
                e.x = vecPat(static_cast<int>(n), static_cast<int>(pat + k) % NVP);
                e.y = matPat(static_cast<int>(n), static_cast<int>(pat * 2 + k) % NMP);
                e.v = p.makeStateFromVector(cvec(e.x));
                e.m = p.makeDDFromMatrix(cmat(e.y));
                p.incRef(e.v);
                p.incRef(e.m);
                kept.push_back(e);
            }
            Machine<P> old(p, static_cast<int>(n));
            old.start();
            for (const unsigned o: {VGen, MGen, VMul, DZero, DGate, MTof, MIdent}) {
                (void)old.step(o);
            }
            const auto before = counters(p);
            if (mid == 3) {
                p.resize(n);
            }
            p.resize(N);
            MC_CHECK(p.qubits() == N, "the package reports " << p.qubits() << " qubits after being resized to " << N);
            auto after = counters(p);
            after[0]   = before[0];
            MC_CHECK(after == before, "resizing changed the counters");
            if (mid == 1) {
                p.garbageCollect(true);
            } else if (mid == 2) {
                p.clearComputeTables();
            }
            const auto verify = [&](const std::string& w) {
                for (const auto& e: kept) {
                    const auto a = vec(e.v, static_cast<int>(n));
                    const auto b = mat(e.m, static_cast<int>(n));
                    MC_CHECK(ref::close(a, e.x, 1e-11), w << ": a state from before the resize is " << ref::str(a) << " instead of " << ref::str(e.x));
                    MC_CHECK(ref::close(b, e.y, 1e-11), w << ": a matrix from before the resize is " << ref::str(b) << " instead of " << ref::str(e.y));
                    MC_CHECK(p.makeStateFromVector(cvec(e.x)) == e.v, w << ": building a state from before the resize again gives another diagram");
                    MC_CHECK(p.makeDDFromMatrix(cmat(e.y)) == e.m, w << ": building a matrix from before the resize again gives another diagram");
                    const auto s = p.multiply(e.m, e.v);
                    const auto r = vec(s, static_cast<int>(n));
                    MC_CHECK(ref::close(r, ref::mul(e.y, e.x), 1e-10), w << ": multiplying diagrams from before the resize gives " << ref::str(r));
                }
                old.verify(w.c_str());
                checkTables(p, w);
            };
            verify("after the resize");
            // larger diagrams, built from the old ones too
            const unsigned L = std::min(N, n + 2U);
            Machine<P>     big(p, static_cast<int>(L));
            big.start();
            for (unsigned o = 0; o < OpCount; ++o) {
                if (big.step(o)) {
                    big.verify(opName(o));
                }
                if (o % 4 == 0) {
                    (void)old.step((o * 7) % OpCount);
                    old.verify("operations of both sizes");
                }
                if (o % 11 == 0) {
                    big.start();
                }
                mc::alive();
            }
            verify("after work on more qubits");
            if (N > n) {
                const auto k  = p.kronecker(p.makeBasisState(static_cast<dd::QubitCount>(1), std::vector<dd::BasisStates>{dd::BasisStates::left}), kept[0].v);
                const auto kx = ref::kron(V{S2, C{0, -S2}}, kept[0].x);
                MC_CHECK(ref::close(vec(k, static_cast<int>(n) + 1), kx, 1e-11), "extending a state from before the resize");
            }
            const auto full = p.makeBasisState(static_cast<dd::QubitCount>(N), std::vector<dd::BasisStates>(N, dd::BasisStates::plus));
            const auto gate = p.makeGateDD(dd::Zmat, static_cast<dd::QubitCount>(N), static_cast<dd::Qubit>(N - 1));
            const auto id   = p.makeIdent(static_cast<dd::QubitCount>(N));
            const auto den  = p.makeZeroDensityOperator(static_cast<dd::QubitCount>(N));
            p.incRef(full);
            const auto z = p.multiply(gate, full);
            MC_CHECK(static_cast<unsigned>(z.p->v) == N - 1 && p.size(z) == N + 1 && p.size(id) == N + 1 && p.size(den) == N + 1, "diagrams on all qubits after the resize");
            MC_CHECK(z.p->e[0].p == full.p->e[0].p && z.p->e[1].p == full.p->e[0].p, "applying a gate on the new top qubit");
            if (N < 128) {
                bool no = false;
                try {
                    (void)p.makeZeroState(static_cast<dd::QubitCount>(N + 1));
                } catch (const std::exception&) {
                    no = true;
                }
                MC_CHECK(no, "more qubits than the package was resized to were accepted");
            }
            p.garbageCollect(true);
            verify("after a collection");
            p.decRef(full);
            big.release();
            old.release();
            for (const auto& e: kept) {
                p.decRef(e.v);
                p.decRef(e.m);
            }
            p.garbageCollect(true);
            const auto c = counters(p);
            for (const unsigned i: {1U, 2U, 3U, 4U, 5U, 6U, 8U}) {
                MC_CHECK(c[i] == 0, "after releasing everything: " << c[i] << " " << COUNTERS[i]);
            }
            MC_CHECK(c[7] == 1, "after releasing everything: " << c[7] << " numbers");
            // and a reset of the enlarged package is a new package of that size
            p.reset();
            same(probe(p, static_cast<int>(n), pat % 3), [&] {P r(N); return probe(r, static_cast<int>(n), pat % 3); }(), "reset after enlarging");
            mc::state(mc::mix(mc::mix(n, N), pat));
        });
    }
    // every chain of sizes; diagrams are only in use on the way up
    void chains() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned len = 1 + mc::choose(mc::thorough() ? 4 : 3, "length");
        static const unsigned SZ[] = {1, 2, 3, 5, 64, 127, 128};
        std::vector<unsigned> s;
        for (unsigned i = 0; i <= len; ++i) {
            s.push_back(SZ[mc::choose(7, "size")]);
        }
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            P                      p(s[0]);
            std::vector<dd::vEdge> held;
            std::vector<dd::mEdge> ids;
            std::string            what = std::to_string(s[0]);
            const auto             use  = [&] {
                const auto b = p.makeBasisState(static_cast<dd::QubitCount>(p.qubits()), std::vector<dd::BasisStates>(p.qubits(), dd::BasisStates::minus));
                p.incRef(b);
                held.push_back(b);
                ids.push_back(p.makeIdent(static_cast<dd::QubitCount>(p.qubits())));
                p.incRef(ids.back());
            };
            const auto check = [&] {
                for (const auto& h: held) {
                    const auto again = p.makeBasisState(static_cast<dd::QubitCount>(h.p->v + 1), std::vector<dd::BasisStates>(static_cast<std::size_t>(h.p->v) + 1, dd::BasisStates::minus));
                    MC_CHECK(again == h, "sizes " << what << ": a state on " << int(h.p->v) + 1 << " qubits is built differently");
                    const auto f = p.fidelity(h, again);
                    MC_CHECK(std::abs(f - 1) < 1e-10, "sizes " << what << ": fidelity of a state with itself " << f);
                }
                for (const auto& h: ids) {
                    MC_CHECK(p.makeIdent(static_cast<dd::QubitCount>(h.p->v + 1)) == h && h.p->isIdentity(), "sizes " << what << ": identity on " << int(h.p->v) + 1 << " qubits");
                }
            };
            use();
            for (unsigned i = 1; i < s.size(); ++i) {
                what += " -> " + std::to_string(s[i]);
                if (s[i] < s[i - 1]) { // nothing is in use any more
                    for (const auto& h: held) {
                        p.decRef(h);
                    }
                    for (const auto& h: ids) {
                        p.decRef(h);
                    }
                    held.clear();
                    ids.clear();
                    p.reset();
                }
                p.resize(s[i]);
                MC_CHECK(p.qubits() == s[i], "sizes " << what << ": the package reports " << p.qubits() << " qubits");
                check();
                use();
                check();
                bool no = s[i] == 128;
                try {
                    if (s[i] < 128) {
                        (void)p.makeIdent(static_cast<dd::QubitCount>(s[i] + 1));
                    }
                } catch (const std::exception&) {
                    no = true;
                }
                MC_CHECK(no, "sizes " << what << ": more qubits than that were accepted");
            }
            p.garbageCollect(true);
            check();
            p.reset();
            {
                const unsigned n = std::min(s.back(), 2U);
                same(probe(p, static_cast<int>(n), len % 3), [&]() -> const Trace& {
                    static std::map<unsigned, Trace> c;
                    auto&                            x = c[s.back() * 4 + len % 3];
                    if (x.empty()) {
                        const mc::Reference quiet;
                        P r(s.back());
                        x = probe(r, static_cast<int>(n), len % 3);
                    }
                    return x;
                }(), "sizes " + what);
            }
            mc::state(mc::mix(s[0] * 1000 + s.back(), len));
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C34", argc, argv,
                   {{"histories", 4, false, histories<false>},
                    {"histories3", 5, true, histories<true>},
                    {"resets", 3, false, resets},
                    {"large", 2, false, large},
                    {"tables", 3, false, tables},
                    {"boundaries", 4, false, boundaries},
                    {"resized", 3, false, resized},
                    {"limit", 1, false, limit},
                    {"enlarge", 3, false, enlarge},
                    {"chains", 3, false, chains}},
                   {"qubits 1-3 for the operation histories, up to 128 for sizes; all pairs (thorough: triples) of 45 operations (released, still referenced, temporaries outstanding, collected) followed by a reset; up to four rounds of work and reset; all chains of up to five sizes; a probe of 45 operations with all amplitudes (within 1e-11), sizes, marks, counters and statistics, compared with a new package; colliding tables and roomy tables",
                    {"shrinking a package is only exercised when no diagrams are in use", "hit counts of the operation caches are not compared"}});
}
