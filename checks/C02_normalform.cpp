// C02: every stored node is in normal form, in every history.
#include "machine.hpp"
using namespace ddx;
namespace {
    // every sequence of operations over an alphabet; the complete node tables are inspected after each operation
    void sequences(const std::vector<unsigned>& ops, int n, unsigned depth, bool startUp) {
        const unsigned cfg   = mc::choose(2, "cfg");
        const unsigned first = mc::choose(static_cast<unsigned>(ops.size()));
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto       p = std::make_unique<P>(static_cast<std::size_t>(n));
            Machine<P> m(*p, n);
            if (startUp) {
                m.start();
            }
            for (unsigned d = 0; d < depth; ++d) {
                const unsigned o = ops[d == 0 ? first : mc::choose(static_cast<unsigned>(ops.size()))];
                if (!m.step(o)) {
                    mc::prune();
                }
                checkTables(*p, std::string("after ") + opName(o));
                m.verify(opName(o));
            }
        });
    }
    const std::vector<unsigned> ALL{VZero, VGen, VSparse, VMul, VMul1, VAdd, VSwap, VDup, VScale, VMeasure0, VMeasure1, VMeasureA, VDelete, VSer, VTrans, VGarb, MH, MGen, MPhase, MSwap2, MIdent, MMul, MAdd, MT, MAdj, MSwapR, MKron, MPtr, MAnc, MDelete, MSer, MTof, DZero, DGate, DGate2, Read, Collect};
    const std::vector<unsigned> VEC{VGen, VMul, VMul1, VAdd, VSwap, VScale, VMeasure0, VDelete, Collect};
    const std::vector<unsigned> MAT{MGen, MMul, MAdd, MT, MAdj, MSwapR, MAnc, MDelete, Collect};
    const std::vector<unsigned> DEN{DZero, DGate, DGate2, DDrop, MT, Collect};
    void all2() { sequences(ALL, 2, mc::thorough() ? 4 : 3, true); }
    void vec3() { sequences(VEC, 3, mc::thorough() ? 5 : 4, true); }
    void mat2() { sequences(MAT, 2, mc::thorough() ? 6 : 5, true); }
    void den2() { sequences(DEN, 2, mc::thorough() ? 8 : 6, true); }

    // all operand pairs of the operand sets through every operation
    void operands() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 4 : 3, "n-1");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned pa  = mc::choose(NMP - 1, "first"); // the last pattern has entries of very different size
        const unsigned pb  = mc::choose(NMP - 1, "second");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(n + 1);
            const auto ni = static_cast<int>(n);
            warm(*p, ni, (pa + pb) % 4);
            const auto a = p->makeDDFromMatrix(cmat(matPat(ni, pa)));
            const auto b = p->makeDDFromMatrix(cmat(matPat(ni, pb)));
            p->multiply(a, b);
            checkTables(*p, "product");
            p->add(a, b);
            p->add(scaled(*p, a, C{0, -1}), b);
            checkTables(*p, "sum");
            p->transpose(a);
            p->conjugateTranspose(b);
            checkTables(*p, "transpose");
            p->kronecker(p->makeDDFromMatrix(cmat(matPat(1, pb))), a);
            p->extend(a, 1);
            checkTables(*p, "Kronecker product");
            for (unsigned s = 1; s < (1U << n); ++s) {
                std::vector<bool> el(n);
                for (unsigned q = 0; q < n; ++q) {
                    el[q] = ((s >> q) & 1U) != 0;
                }
                if (!a.isTerminal()) {
                    p->partialTrace(a, el);
                }
                checkTables(*p, "partial trace");
                for (unsigned q = 0; q < n; ++q) {
                    for (unsigned i = 0; i < 4; ++i) {
                        p->deleteEdge(a, static_cast<dd::Qubit>(q), i);
                    }
                }
                checkTables(*p, "deleting an edge");
                for (const bool reg: {true, false}) {
                    if (!b.isTerminal()) {
                        auto x = b;
                        p->incRef(x);
                        x = p->reduceAncillae(x, el, reg);
                        checkTables(*p, "reducing ancillae");
                    }
                }
            }
            if (pb < NVP && pb != 9) {
                const auto v = p->makeStateFromVector(cvec(vecPat(ni, pb)));
                mc::op(4);
                mc::state(mc::mix(pa * 64 + pb, n));
                const auto w = p->multiply(a, v);
                checkTables(*p, "matrix-vector product");
                p->add(w, v);
                p->add(v, scaled(*p, v, C{-1, 1e-3}));
                checkTables(*p, "sum of states");
                p->kronecker(v, p->makeZeroState(1));
                for (unsigned q = 0; q < n; ++q) {
                    for (unsigned i = 0; i < 2; ++i) {
                        p->deleteEdge(v, static_cast<dd::Qubit>(q), i);
                    }
                }
                checkTables(*p, "operations on states");
            }
        });
    }
    // constructors over the complete small alphabets, including entries close to zero and to each other
    void constructors() {
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned kind = mc::choose(5, "kind");
        const unsigned part = mc::choose(16, "part");
        static const std::vector<C> E8{{0, 0}, {1, 0}, {1, 1e-14}, {0, 1}, {-1, 0}, {1e-14, 0}, {1 - 1e-14, 0}, {0.3, 0.4}};
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(4);
            auto each = [&](std::size_t total, std::size_t step, auto f) {
                std::size_t k = 0;
                for (std::size_t c = part * step; c < total; c += 16 * step) {
                    f(c);
                    mc::op();
                    mc::state(mc::mix(c, kind));
                    if (++k % 16 == 0) {
                        checkTables(*p, "constructor");
                        p->garbageCollect(true);
                        mc::alive();
                    }
                }
                checkTables(*p, "constructor");
            };
            switch (kind) {
                case 0: each(4096, 1, [&](std::size_t c) { p->makeStateFromVector(cvec(vecFrom(c, 2, E8))); }); break;
                case 1: each(4096, 1, [&](std::size_t c) { p->makeDDFromMatrix(cmat(matFrom(c, E8))); }); break;
                case 2: each(4096, 1, [&](std::size_t c) { p->makeDDFromMatrix(cmat(mat4(c, 8))); }); break;
                case 3: each(65536, 7, [&](std::size_t c) { p->makeStateFromVector(cvec(vecFrom(c, 3, L4))); }); break;
                default:
                    each(81 * 4, 1, [&](std::size_t c) {
                        const auto tgt = static_cast<int>(c % 4);
                        const C    g[] = {0.6, C{0, 0.8}, C{0, 0.8}, 0.6};
                        p->makeGateDD(gm(g), 4, ctls(controlsFrom(c / 4, 4, {tgt})), static_cast<dd::Qubit>(tgt));
                        p->makeTwoQubitGateDD(dd::SWAPmat, 4, static_cast<dd::Qubit>(tgt), static_cast<dd::Qubit>((tgt + 1 + c / 4 % 3) % 4));
                    });
                    break;
            }
        });
    }
    // results that vanish within the tolerance: a zero result is the zero edge to the terminal
    template<class E>
    void root(const E& e, const char* what) {
        mc::op();
        mc::state(mc::mix(ref::hash(V{val(e.w)}), e.isTerminal() ? 1 : 2));
        if (val(e.w) == C{0, 0} && !e.isTerminal()) {
            mc::fail(std::string("the root edge returned by ") + what + " has weight zero but does not point to the terminal");
        }
    }
    void vanishing() {
        const double   S[] = {1, 1e-3, 1e-6, 3e-7, 1e-7, 3e-8, 1e-9, 1e-12, 3e-13};
        const unsigned n   = 1 + mc::choose(2, "n-1");
        const unsigned cfg = mc::choose(2, "cfg");
        const double   sa  = mc::pick(S, "first scale");
        const double   sb  = mc::pick(S, "second scale");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            for (unsigned pa = 0; pa < NMP; ++pa) {
                auto       p = std::make_unique<P>(2 * n);
                const auto a = scaled(*p, p->makeDDFromMatrix(cmat(matPat(ni, pa))), C{sa, 0});
                const auto b = scaled(*p, p->makeDDFromMatrix(cmat(matPat(ni, (pa * 5 + 2) % NMP))), C{0, sb});
                root(p->multiply(a, b), "a matrix product");
                root(p->add(a, b), "a matrix sum");
                root(p->add(a, scaled(*p, a, C{-1, 0})), "a cancelling matrix sum");
                root(p->kronecker(a, b), "a Kronecker product");
                root(p->transpose(a), "a transpose");
                root(p->conjugateTranspose(a), "an adjoint");
                for (unsigned s = 1; s < (1U << n); ++s) {
                    std::vector<bool> el(n);
                    for (unsigned q = 0; q < n; ++q) {
                        el[q] = ((s >> q) & 1U) != 0;
                    }
                    root(p->partialTrace(a, el), "a partial trace");
                    if (!b.isTerminal()) {
                        auto x = b;
                        p->incRef(x);
                        root(p->reduceAncillae(x, el, pa % 2 == 0), "reducing ancillae");
                    }
                }
                for (unsigned q = 0; q < n; ++q) {
                    for (unsigned i = 0; i < 4; ++i) {
                        root(p->deleteEdge(a, static_cast<dd::Qubit>(q), i), "deleting an edge");
                    }
                }
                if (pa < NVP) {
                    const auto v = scaled(*p, p->makeStateFromVector(cvec(vecPat(ni, pa))), C{sb, 0});
                    const auto w = scaled(*p, p->makeStateFromVector(cvec(vecPat(ni, (pa * 3 + 1) % NVP))), C{0, sa});
                    root(p->multiply(a, v), "a matrix-vector product");
                    root(p->add(v, w), "a sum of states");
                    root(p->add(v, scaled(*p, v, C{-1, 0})), "a cancelling sum of states");
                    root(p->kronecker(v, w), "a Kronecker product of states");
                    for (unsigned q = 0; q < n; ++q) {
                        for (unsigned i = 0; i < 2; ++i) {
                            root(p->deleteEdge(v, static_cast<dd::Qubit>(q), i), "deleting an edge of a state");
                        }
                    }
                }
            }
        });
    }
    // entries of very different size: what vanishes next to a large entry is a zero edge, what does not is kept
    void magnitudes() {
        const double   S[]  = {0, 1e6, 1e3, 1, 1e-3, 1e-7, 1e-9, 1e-11, 3e-13, 1e-13};
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned kind = mc::choose(mc::thorough() ? 4 : 3, "kind");
        const double   a    = mc::pick(S, "first");
        const double   b    = mc::pick(S, "second");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(4);
            for (const double c: S) {
                for (const double d: S) {
                    const V x{a, C{0, b}, C{0, -c}, C{-0.6 * d, 0.8 * d}};
                    // numbers are kept with an absolute accuracy: entries that are all close to the tolerance have no accurate ratio
                    const auto rough = [](double y, double z) { return y > 0 && z > 0 && std::max(y, z) < 1e-3; };
                    if (rough(a, b) || rough(c, d) || rough(std::hypot(a, b), std::hypot(c, d)) || rough(a, d) || rough(b, c) || rough(a, c) || rough(b, d)) {
                        continue;
                    }
                    mc::op();
                    mc::state(mc::mix(ref::hash(x), kind));
                    if (kind == 0) {
                        root(p->makeStateFromVector(cvec(x)), "a vector");
                    } else if (kind == 1) {
                        M m(2);
                        m(0, 0) = x[0], m(0, 1) = x[1], m(1, 0) = x[2], m(1, 1) = x[3];
                        const auto e = p->makeDDFromMatrix(cmat(m));
                        root(e, "a matrix");
                        root(p->transpose(e), "a transpose");
                        root(p->conjugateTranspose(e), "an adjoint");
                    } else if (kind == 2) { // the same entries met by a sum
                        const auto e = p->makeStateFromVector(cvec({a, 0, 0, x[3]}));
                        const auto f = p->makeStateFromVector(cvec({0, x[1], x[2], 0}));
                        root(p->add(e, f), "a sum");
                        root(p->kronecker(e, f), "a Kronecker product");
                    } else {
                        M m(4);
                        for (unsigned i = 0; i < 4; ++i) {
                            m(i, i)           = x[i];
                            m(i, (i + 1) % 4) = x[(i + 2) % 4];
                        }
                        root(p->makeDDFromMatrix(cmat(m)), "a matrix");
                    }
                }
                checkTables(*p, "entries of very different size");
                mc::alive();
            }
        });
    }
    // diagrams that do not start at qubit 0, and large registers
    void wide() {
        const unsigned sizes[] = {5, 16, 64, 65, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned start   = mc::choose(3, "start") * (n / 4);
        auto           p       = std::make_unique<Pkg<Mid>>(n);
        const auto     k       = static_cast<dd::QubitCount>(n - start);
        auto           v       = p->makeBasisState(k, std::vector<dd::BasisStates>(n, dd::BasisStates::minus), start);
        checkTables(*p, "product state", true);
        for (unsigned q = start; q < n; q += 3) {
            const auto g = p->makeGateDD(dd::RYmat(0.3), k, dd::Control{static_cast<dd::Qubit>(q + 1 < n ? q + 1 : q - 1)}, static_cast<dd::Qubit>(q), start);
            v            = p->multiply(g, v, static_cast<dd::Qubit>(start));
            if (q % 5 == 0) {
                checkTables(*p, "gate on a register", true);
            }
        }
        checkTables(*p, "gates on a register", true);
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C02", argc, argv,
                   {{"all-operations", 3, false, all2},
                    {"state-histories", 3, false, vec3},
                    {"matrix-histories", 3, false, mat2},
                    {"density-histories", 3, false, den2},
                    {"operand-pairs", 4, false, operands},
                    {"constructors", 3, false, constructors},
                    {"vanishing-results", 3, false, vanishing},
                    {"magnitudes", 3, false, magnitudes},
                    {"wide-registers", 2, false, wide}},
                   {"all sequences of 3 (4) of 37 operations on two qubits, 4 (5) of 9 state operations on three qubits, 5 (6) of 9 matrix operations, 6 (8) of 6 density operations, with the complete node tables inspected after every operation; 15x15 pattern pairs of 1-3 (4) qubits through every operation; complete small constructor alphabets including near-zero and near-equal entries; registers up to 128 qubits and diagrams that start above qubit 0; small and normal tables",
                    {"entries are taken from finite alphabets", "weights within 1e-13 count as identical"}});
}
