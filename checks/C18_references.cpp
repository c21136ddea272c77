// C18: reference counts are exact in every history, everything released is gone, no temporary is kept or lost.
#include "machine.hpp"
using namespace ddx;
namespace {
    // exact counts after every step; nothing remains at the end
    template<class P>
    void finish(P& p, const std::string& what) {
        const auto stored = [&p] { return p.vUniqueTable.getNodeCount() + p.mUniqueTable.getNodeCount() + p.dUniqueTable.getNodeCount(); };
        const auto nodes  = stored();
        const bool did    = p.garbageCollect(true);
        MC_CHECK(did || stored() == nodes, what << ": the collection removed " << nodes - stored() << " nodes and reported that it did nothing");
        RefModel none;
        none.check(p, what, true);
        MC_CHECK(p.vUniqueTable.getNodeCount() == 0, what << ": " << p.vUniqueTable.getNodeCount() << " state nodes remain after everything was released");
        MC_CHECK(p.mUniqueTable.getNodeCount() == 0, what << ": " << p.mUniqueTable.getNodeCount() << " matrix nodes remain after everything was released");
        MC_CHECK(p.dUniqueTable.getNodeCount() == 0, what << ": " << p.dUniqueTable.getNodeCount() << " density matrix nodes remain after everything was released");
        checkTemps(p, what);
        MC_CHECK(p.cn.complexTable.getCount() <= 1, what << ": " << p.cn.complexTable.getCount() << " numbers remain after everything was released");
    }
    // prefixes are histories of their own: only the last step of each history is checked
    void histories(unsigned n, unsigned cfg, unsigned depth, const std::vector<unsigned>& ops) {
        const unsigned len = 1 + mc::choose(depth, "length-1");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto       p     = std::make_unique<P>(n);
            const auto temps = p->cn.cacheCount();
            Machine<P> m(*p, static_cast<int>(n));
            m.start();
            unsigned o = 0;
            for (unsigned d = 0; d < len; ++d) {
                o = ops[mc::choose(static_cast<unsigned>(ops.size()), "op")];
                if (!m.step(o)) {
                    mc::prune();
                }
            }
            RefModel r;
            m.roots(r);
            r.check(m.p, std::string("after ") + opName(o), true);
            MC_CHECK(m.p.cn.cacheCount() == temps, "after " << opName(o) << ": " << m.p.cn.cacheCount() << " temporaries in use, " << temps << " before");
            m.verify(opName(o));
            m.release();
            finish(*p, std::string("after ") + opName(o) + " and releasing everything");
        });
    }
    std::vector<unsigned> allOps() {
        std::vector<unsigned> r;
        for (unsigned o = 0; o < OpCount; ++o) {
            r.push_back(o);
        }
        return r;
    }
    void full() {
        const unsigned n = 1 + mc::choose(3, "n-1");
        const unsigned c = mc::choose(2, "cfg");
        histories(n, c, 2, allOps());
    }
    void triples() {
        const unsigned n = mc::thorough() ? 1 + mc::choose(3, "n-1") : 2;
        histories(n, mc::thorough() ? mc::choose(2, "cfg") : 0, 3, allOps());
    }
    void quads() {
        const unsigned a = mc::choose(3, "alphabet");
        std::vector<unsigned> o;
        if (a == 0) {
            o = {VMul, VMul1, VAdd, VSwap, VDrop, VDup, VMeasure0, VMeasureA, MMul, MSwapR, Collect};
        } else if (a == 1) {
            o = {MGen, MMul, MAdd, MAdj, MSwapR, MDrop, MDup, MKron, MPtr, MAnc, MDelete, Collect};
        } else {
            o = {DZero, DGate, DGate2, DDrop, MH, VSer, MSer, VTrans, VScale, VDelete, Collect, ClearC};
        }
        if (mc::thorough()) {
            histories(2, 0, 5, o);
        } else {
            histories(2, 0, 4, o);
        }
    }
    // every operation on every operand: no temporary kept or lost, nothing left after a collection
    template<class P>
    void opsV(P& p, const dd::vEdge& x, const dd::vEdge& y, int n) {
        const NoLeak<P> nl(p);
        const auto      nq = static_cast<dd::QubitCount>(n);
        (void)p.add(x, y);
        nl.check("addition");
        if (!x.isTerminal() && !y.isTerminal()) {
            (void)p.innerProduct(x, y);
            nl.check("inner product");
            (void)p.fidelity(x, y);
            nl.check("fidelity");
            const auto k = p.kronecker(x, y);
            nl.check("kronecker product");
            (void)p.size(k);
        }
        if (!x.isTerminal()) {
            (void)p.getVector(x);
            nl.check("getVector");
            (void)p.getValueByPath(x, std::string(static_cast<std::size_t>(n), '1'));
            nl.check("getValueByPath");
            (void)p.getValueByPath(x, 1);
            nl.check("getValueByIndex");
            for (int q = 0; q < n; ++q) {
                (void)p.deleteEdge(x, static_cast<dd::Qubit>(q), 0);
                (void)p.deleteEdge(x, static_cast<dd::Qubit>(q), 1);
                nl.check("deleteEdge");
            }
            std::ostringstream os;
            dd::serialize(x, os, false);
            std::istringstream is(os.str());
            (void)p.template deserialize<dd::vNode>(is, false);
            nl.check("serialization");
            std::ostringstream dot;
            p.exportAmplitudes(x, dot, nq, true);
            dd::toDot(x, dot);
            nl.check("export");
            P    other(static_cast<std::size_t>(n));
            auto z = x;
            const NoLeak<P> nm(other);
            (void)other.transfer(z);
            nl.check("transfer (source)");
            nm.check("transfer (target)");
        }
        mc::op(12);
    }
    template<class P>
    void opsM(P& p, const dd::mEdge& x, const dd::mEdge& y, const dd::vEdge& v, int n) {
        const NoLeak<P> nl(p);
        (void)p.add(x, y);
        nl.check("addition");
        (void)p.multiply(x, y);
        nl.check("multiplication");
        (void)p.multiply(x, v);
        nl.check("application to a state");
        (void)p.transpose(x);
        nl.check("transpose");
        (void)p.conjugateTranspose(x);
        nl.check("adjoint");
        (void)p.kronecker(x, y);
        nl.check("kronecker product");
        if (!x.isTerminal()) {
            (void)p.trace(x);
            nl.check("trace");
            for (std::size_t k = 0; k < (1ULL << n); ++k) {
                std::vector<bool> el;
                for (int q = 0; q < n; ++q) {
                    el.push_back(((k >> q) & 1U) != 0);
                }
                (void)p.partialTrace(x, el);
                nl.check("partial trace");
                for (const bool reg: {true, false}) {
                    auto e = x;
                    p.incRef(e);
                    e = p.reduceAncillae(e, el, reg);
                    nl.check("reduceAncillae");
                    p.decRef(e);
                }
            }
            (void)p.getMatrix(x);
            (void)p.getValueByPath(x, std::string(static_cast<std::size_t>(n), '2'));
            (void)p.getValueByPath(x, 0, 1);
            nl.check("read-out");
            (void)p.isCloseToIdentity(x);
            (void)p.extend(x, 1, 0);
            nl.check("extend");
            for (int q = 0; q < n; ++q) {
                for (std::size_t k = 0; k < 4; ++k) {
                    (void)p.deleteEdge(x, static_cast<dd::Qubit>(q), k);
                }
            }
            nl.check("deleteEdge");
            std::ostringstream os;
            dd::serialize(x, os, true);
            std::istringstream is(os.str());
            (void)p.template deserialize<dd::mNode>(is, true);
            nl.check("serialization");
            if (!v.isTerminal()) {
                p.incRef(x);
                p.incRef(v);
                try {
                    (void)p.expectationValue(x, v);
                } catch (const std::runtime_error&) { // not a real number
                }
                nl.check("expectation value");
                p.decRef(x);
                p.decRef(v);
            }
        }
        mc::op(14);
    }
    void operandsV() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned n   = 1 + mc::choose(3, "n-1");
        const unsigned a   = mc::choose(n == 1 ? 81 : NVP, "x");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(2 * n);
            const auto x  = p->makeStateFromVector(cvec(n == 1 ? vecFrom(a, 1, L9) : vecPat(ni, a)));
            p->incRef(x);
            for (unsigned b = 0; b < (n == 1 ? 81 : 2 * NVP); ++b) {
                auto y = p->makeStateFromVector(cvec(n == 1 ? vecFrom(b, 1, L9) : vecPat(ni, b % NVP)));
                if (b >= NVP) {
                    y = scaled(*p, y, C{-1, 0}); // cancels against x
                }
                p->incRef(y);
                opsV(*p, x, y, ni);
                p->decRef(y);
                if (b % 8 == 7) {
                    p->garbageCollect(true);
                }
                mc::alive();
            }
            RefModel r;
            r.root(x);
            r.check(*p, "after all operations on one state", true);
            p->decRef(x);
            finish(*p, "after all operations on one state");
        });
    }
    void operandsM() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 3 : 2, "n-1");
        const unsigned a   = mc::choose(n == 1 ? 256 : n == 2 ? 6 * 6 * 6 : NMP, "x");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(2 * n + 1);
            const auto xm = n == 1 ? matFrom(a, L4) : n == 2 ? blocks(B8()[a % 6 + 1], B8()[a / 6 % 6], B8()[a / 36], B8()[(a + a / 6) % 8]) : matPat(ni, a);
            const auto x  = p->makeDDFromMatrix(cmat(xm));
            p->incRef(x);
            for (unsigned b = 0; b < (n == 1 ? 64 : NMP); ++b) {
                auto y = p->makeDDFromMatrix(cmat(n == 1 ? matFrom(b * 5 % 256, L4) : matPat(ni, b)));
                auto v = p->makeStateFromVector(cvec(vecPat(ni, b % NVP)));
                if (b % 3 == 2) {
                    y = scaled(*p, x, C{-1, 0});
                }
                p->incRef(y);
                p->incRef(v);
                opsM(*p, x, y, v, ni);
                p->decRef(y);
                p->decRef(v);
                if (b % 8 == 7) {
                    p->garbageCollect(true);
                }
                mc::alive();
            }
            RefModel r;
            r.root(x);
            r.check(*p, "after all operations on one matrix", true);
            p->decRef(x);
            finish(*p, "after all operations on one matrix");
        });
    }
    // the same diagram referenced and released many times, interleaved with diagrams sharing its nodes
    void counting() {
        const unsigned cfg = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto                   p = std::make_unique<P>(3);
            std::vector<dd::vEdge> vs{p->makeZeroState(3), p->makeStateFromVector(cvec(vecPat(3, 6))), p->makeStateFromVector(cvec(vecPat(3, 10)))};
            vs.push_back(scaled(*p, vs[1], C{0, -0.3}));
            std::vector<dd::mEdge> ms{p->makeIdent(3), p->makeGateDD(dd::Tmat, 3, dd::Control{2}, 0)};
            ms.push_back(p->multiply(ms[1], p->makeGateDD(dd::RXmat(0.3), 3, 1)));
            std::vector<unsigned> held(7);
            const unsigned        depth = mc::thorough() ? 6 : 4;
            for (unsigned d = 0; d < depth; ++d) {
                const unsigned k = mc::choose(14, "op");
                const unsigned i = k % 7;
                if (k < 7) {
                    ++held[i];
                    i < 4 ? p->incRef(vs[i]) : p->incRef(ms[i - 4]);
                } else {
                    if (held[i] == 0) {
                        mc::prune();
                    }
                    --held[i];
                    i < 4 ? p->decRef(vs[i]) : p->decRef(ms[i - 4]);
                }
                mc::op();
            }
            const auto refs = [&](const char* what) {
                RefModel r;
                for (unsigned i = 0; i < 7; ++i) {
                    for (unsigned k = 0; k < held[i]; ++k) {
                        i < 4 ? r.root(vs[i]) : r.root(ms[i - 4]);
                    }
                }
                r.check(*p, what, true);
            };
            refs("after references and releases");
            p->garbageCollect(true);
            refs("after references, releases and a collection");
            for (unsigned i = 0; i < 7; ++i) {
                while (held[i] > 0) {
                    i < 4 ? p->decRef(vs[i]) : p->decRef(ms[i - 4]);
                    --held[i];
                }
            }
            finish(*p, "after references and releases");
        });
    }
    // releasing more often than referenced is detected
    void underflow() {
        const unsigned k = mc::choose(4, "kind");
        auto           p = std::make_unique<Pkg<Mid>>(2);
        bool           threw = false;
        try {
            if (k == 0) {
                auto e = p->makeZeroState(2);
                p->incRef(e);
                p->decRef(e);
                p->decRef(e);
            } else if (k == 1) {
                auto e = p->makeGateDD(dd::Hmat, 2, 1);
                p->decRef(e);
            } else if (k == 2) {
                auto c = p->cn.lookup(0.3, 0.4);
                dd::ComplexNumbers::incRef(c);
                dd::ComplexNumbers::decRef(c);
                dd::ComplexNumbers::decRef(c);
            } else {
                auto e = p->makeZeroDensityOperator(2);
                p->decRef(e);
            }
        } catch (const std::runtime_error&) {
            threw = true;
        }
        mc::op();
        mc::state(k);
        MC_CHECK(threw, "releasing something that is not referenced is not reported");
    }
    // counts beyond what 8 and 16 bits hold
    void manyTimes() {
        const unsigned kind   = mc::choose(5, "kind");
        const unsigned ns[]   = {255, 256, 257, 65535, 65536, 65537, 200000};
        const unsigned times  = mc::pick(ns, "times");
        const unsigned before = mc::choose(2, "collection while held");
        auto           p      = std::make_unique<Pkg<Mid>>(2);
        const auto     s      = p->makeStateFromVector(cvec(vecPat(2, 6)));
        const auto     g      = p->makeGateDD(dd::RXmat(0.3), 2, dd::Control{1}, 0);
        auto           d      = p->makeZeroDensityOperator(2);
        const auto     c      = p->cn.lookup(0.3, 0.4);
        const auto     one    = [&](bool inc) {
            if (kind == 0) {
                inc ? p->incRef(s) : p->decRef(s);
            } else if (kind == 1) {
                inc ? p->incRef(g) : p->decRef(g);
            } else if (kind == 2) {
                inc ? p->incRef(d) : p->decRef(d);
            } else if (kind == 3) {
                inc ? dd::ComplexNumbers::incRef(c) : dd::ComplexNumbers::decRef(c);
            } else { // two roots sharing nodes
                const auto s2 = dd::vEdge{s.p->e[0].p, dd::Complex::one};
                inc ? p->incRef(s) : p->decRef(s);
                inc ? p->incRef(s2) : p->decRef(s2);
            }
        };
        try {
            for (unsigned i = 0; i < times; ++i) {
                one(true);
            }
            if (before != 0) {
                p->garbageCollect(true);
            }
            for (unsigned i = 0; i + 1 < times; ++i) {
                one(false);
            }
            mc::op(2 * times);
            // still held once
            p->garbageCollect(true);
            const auto sv = p->vUniqueTable.getNodeCount();
            const auto sm = p->mUniqueTable.getNodeCount();
            const auto sd = p->dUniqueTable.getNodeCount();
            MC_CHECK((sv == 0) == (kind != 0 && kind != 4) && (sm == 0) == (kind != 1) && sd == (kind == 2 ? 2 : 0), "held once after " << times << " references and " << times - 1 << " releases: " << sv << " state, " << sm << " matrix, " << sd << " density matrix nodes remain");
            if (kind == 3) {
                MC_CHECK(p->cn.lookup(0.3, 0.4) == c, "a number that is held once was released");
            }
            one(false);
        } catch (const std::runtime_error& e) {
            mc::fail("referenced " + std::to_string(times) + " times and released as often: " + e.what());
        }
        mc::state(times * 8 + kind);
        finish(*p, "referenced and released " + std::to_string(times) + " times");
    }
    void wide() {
        const unsigned sizes[] = {16, 31, 32, 33, 63, 64, 65, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned cfg     = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P        = Pkg<typename decltype(t)::type>;
            auto       p   = std::make_unique<P>(n);
            const auto nq  = static_cast<dd::QubitCount>(n);
            auto       e   = p->makeZeroState(nq);
            p->incRef(e);
            for (unsigned q = 0; q < n; ++q) {
                const auto g = q == 0 ? p->makeGateDD(dd::RYmat(0.9), nq, 0) : p->makeGateDD(dd::Xmat, nq, dd::Control{static_cast<dd::Qubit>(q - 1)}, static_cast<dd::Qubit>(q));
                const auto f = p->multiply(g, e);
                p->incRef(f);
                p->decRef(e);
                e = f;
                if (q % 16 == 15) {
                    p->garbageCollect(true);
                }
                mc::alive();
            }
            const auto g = p->makeGateDD(dd::Tmat, nq, dd::Control{static_cast<dd::Qubit>(n - 1)}, 0);
            p->incRef(g);
            RefModel r;
            r.root(e);
            r.root(g);
            r.check(*p, "after a circuit on " + std::to_string(n) + " qubits", true);
            MC_CHECK(p->vUniqueTable.getActiveNodeCount() == 2 * n - 1, "GHZ-like state on " << n << " qubits has " << p->vUniqueTable.getActiveNodeCount() << " active nodes");
            for (unsigned q = 0; q < n; ++q) {
                const auto a = p->vUniqueTable.getActiveNodeCount(static_cast<dd::Qubit>(q));
                MC_CHECK(a == (q == n - 1 ? 1U : 2U), a << " nodes counted as active for qubit " << q << " of " << n);
            }
            mc::state(n);
            p->decRef(e);
            p->decRef(g);
            finish(*p, "after a circuit on " + std::to_string(n) + " qubits");
            checkTemps(*p, "after a circuit");
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C18", argc, argv,
                   {{"all-pairs", 3, false, full},
                    {"all-triples", 3, false, triples},
                    {"deeper", 3, false, quads},
                    {"state-operands", 3, false, operandsV},
                    {"matrix-operands", 3, false, operandsM},
                    {"counting", 3, false, counting},
                    {"underflow", 1, false, underflow},
                    {"many-times", 2, false, manyTimes},
                    {"wide-registers", 2, false, wide}},
                   {"all histories of 2 operations out of 45 on 1 to 3 qubits and of 3 operations on 2 qubits (thorough: 1 to 3 qubits, two table shapes), three alphabets of 11-12 operations to depth 4 (5); every operation on all pairs of 1-qubit states over 9 letters, 1-qubit matrices over 4 letters, 2-qubit block matrices and patterns incl. cancelling operands; all sequences of 4 (6) references and releases of seven diagrams sharing nodes; 255 to 200000 references to a state, matrix, density matrix, number and shared node; circuits to 128 qubits. After each: every node's and number's count recomputed from the roots, every temporary accounted for, nothing left at the end",
                    {"counts at their maximum (2^32-1) are not reached"}});
}
