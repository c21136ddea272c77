// C30: reducing ancillaries zeroes exactly the columns (rows) with an ancillary qubit in state one.
#include "ddx.hpp"

#include <unordered_set>
using namespace ddx;
namespace {
    M zeroed(const M& a, unsigned set, bool regular) {
        M r(a.d);
        for (std::size_t i = 0; i < a.d; ++i) {
            for (std::size_t j = 0; j < a.d; ++j) {
                r(i, j) = ((regular ? j : i) & set) != 0 ? C{0, 0} : a(i, j);
            }
        }
        return r;
    }
    std::vector<bool> bits(unsigned set, unsigned n) {
        std::vector<bool> r;
        for (unsigned q = 0; q < n; ++q) {
            r.push_back(((set >> q) & 1U) != 0);
        }
        return r;
    }
    void reach(const dd::mEdge& e, std::unordered_set<const dd::mNode*>& s) {
        if (!e.isTerminal() && s.insert(e.p).second) {
            for (const auto& c: e.p->e) {
                reach(c, s);
            }
        }
    }
    // `alone`: nothing else is referenced in the package
    template<class P>
    void reduce(P& p, const dd::mEdge& in, const M& a, int n, unsigned set, unsigned extra, bool regular, bool alone, bool same) {
        double mx = 1, mn = 1;
        for (const auto& x: a.a) {
            mx = std::max(mx, std::abs(x));
            mn = x == C{0, 0} ? mn : std::min(mn, std::abs(x));
        }
        const auto want = zeroed(a, set, regular);
        const auto what = [&] { return std::string(regular ? "regular" : "inverse") + " reduction by set " + std::to_string(set) + " of " + (n <= 2 ? ref::str(a) : "a matrix of " + std::to_string(n) + " qubits"); };
        NoLeak<P>  nl(p);
        auto       e = in;
        p.incRef(e);
        const auto r = p.reduceAncillae(e, bits(set, static_cast<unsigned>(n) + extra), regular);
        if (alone) {
            p.garbageCollect(true); // r is referenced, the input no longer is
        }
        expect(mat(r, n), want, what(), 1e-10 * mx);
        MC_CHECK(e == in, what() << " changed the edge it was given");
        if (same && mx <= 4) {
            const auto o = p.makeDDFromMatrix(cmat(want));
            MC_CHECK(o.p == r.p && ref::close(val(o.w), val(r.w), 1e-9), what() << " is not the diagram the package builds for that matrix");
        }
        MC_CHECK(val(r.w) != C(0, 0) || r == dd::mEdge::zero, what() << " has weight zero but is not the zero matrix");
        nl.check(what());
        if (alone) {
            p.garbageCollect(true);
            std::unordered_set<const dd::mNode*> s;
            reach(r, s);
            MC_CHECK(p.mUniqueTable.getNodeCount() == s.size(), what() << ": " << p.mUniqueTable.getNodeCount() << " nodes are kept, the result has " << s.size());
            MC_CHECK(r.isTerminal() || r.p->ref == 1, what() << ": the result is referenced " << r.p->ref << " times");
        }
        // the same again on the result changes nothing
        auto       f  = r;
        const auto r2 = p.reduceAncillae(f, bits(set, static_cast<unsigned>(n) + extra), regular);
        MC_CHECK(r2 == r || ((mx > 4 || mn < 1e-3) && ref::close(mat(r2, n), want, 1e-9 * mx)), what() << " a second time gives another diagram");
        p.decRef(r2);
        if (alone) {
            p.garbageCollect(true);
            MC_CHECK(p.mUniqueTable.getNodeCount() == 0, what() << ": " << p.mUniqueTable.getNodeCount() << " nodes are kept after the result was released");
        }
    }
    const C F[] = {{1, 0}, {-1, 0}, {0, 1}, {0.5, 0}, {3, -4}, {1e-4, 1e-5}, {0, 0}, {1, 1e-3}};
    // used packages: nothing is collected between the questions
    void used() {
        const unsigned n   = 1 + mc::choose(2, "qubits-1");
        const unsigned cfg = mc::choose(2, "tables");
        const unsigned w   = mc::choose(4, "env");
        const unsigned hi  = mc::choose(32, "part");
        withCfg(cfg, [&](auto t) {
            using P          = Pkg<typename decltype(t)::type>;
            const auto ni    = static_cast<int>(n);
            const auto total = n == 1 ? ipow(L9.size(), 4) : ipow(8, 4);
            auto       p     = std::make_unique<P>(n + w % 2);
            warm(*p, ni, w);
            for (std::size_t x = hi; x < total; x += 32) {
                const auto a = n == 1 ? matFrom(x, L9) : mat4(x, 8);
                const auto e = p->makeDDFromMatrix(cmat(a));
                const C    f = F[x / 32 % 8];
                p->incRef(e);
                for (unsigned s = 0; s < (1U << n); ++s) {
                    for (const bool reg: {true, false}) {
                        reduce(*p, e, a, ni, s, s % 2, reg, false, n > 1);
                        reduce(*p, scaled(*p, e, f), ref::scale(a, f), ni, s, w % 2, reg, false, n > 1);
                    }
                }
                expect(mat(e, ni), a, "matrix after reductions", 1e-10);
                p->decRef(e);
                if (x / 32 % 16 == 15) {
                    mc::alive();
                    p->garbageCollect(true);
                }
            }
        });
    }
    // fresh packages: references are counted after every step
    void alone() {
        const unsigned n   = 1 + mc::choose(2, "qubits-1");
        const unsigned hi  = mc::choose(64, "part");
        const auto     ni  = static_cast<int>(n);
        const auto     tot = n == 1 ? ipow(L5.size(), 4) : ipow(8, 4);
        auto           p   = std::make_unique<Pkg<Tiny>>(n);
        for (std::size_t x = hi; x < tot; x += 64) {
            const auto a = n == 1 ? matFrom(x, L5) : mat4(x, 8);
            for (unsigned s = 0; s < (1U << n); ++s) {
                for (const bool reg: {true, false}) {
                    reduce(*p, p->makeDDFromMatrix(cmat(a)), a, ni, s, (s + x) % 2, reg, true, n > 1);
                }
            }
            mc::alive();
        }
    }
    // three qubits from blocks, and larger patterns; every subset
    void larger() {
        const unsigned cfg = mc::choose(2, "tables");
        const unsigned n   = mc::choose(mc::thorough() ? 6 : 5, "qubits");
        const unsigned pa  = mc::choose(NMP, "pattern");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            for (unsigned w = 0; w < 4; ++w) {
                auto p = std::make_unique<P>(std::max(1U, n) + w % 2);
                warm(*p, std::min(ni, 3), w);
                if (n == 0) {
                    for (const auto& c: L9) {
                        const auto l = p->cn.lookup(c.real(), c.imag());
                        M          a(1);
                        a(0, 0) = c;
                        for (const bool reg: {true, false}) {
                            reduce(*p, dd::mEdge::terminal(l), a, 0, 0, w % 2, reg, false, false);
                            auto e = dd::mEdge::terminal(l);
                            MC_CHECK(p->reduceAncillae(e, {true}, reg) == e, "reducing a scalar changed it");
                        }
                    }
                    continue;
                }
                const auto a = matPat(ni, pa);
                const auto e = p->makeDDFromMatrix(cmat(a));
                p->incRef(e);
                for (unsigned s = 0; s < (1U << n); ++s) {
                    for (const bool reg: {true, false}) {
                        reduce(*p, e, a, ni, s, w, reg, false, false);
                        reduce(*p, scaled(*p, e, F[(s + w) % 8]), ref::scale(a, F[(s + w) % 8]), ni, s, 0, reg, false, false);
                    }
                    if (s % 8 == 7) {
                        p->garbageCollect(true);
                    }
                }
                expect(mat(e, ni), a, "matrix after reductions", 1e-9);
                // reducing by one qubit after the other is reducing by all, also in both orientations
                auto f = e;
                M    b = a;
                for (unsigned q = 0; q < n; ++q) {
                    f = p->reduceAncillae(f, bits(1U << q, n), q % 2 == 0);
                    b = zeroed(b, 1U << q, q % 2 == 0);
                    p->garbageCollect(true);
                    expect(mat(f, ni), b, "successive reductions", 1e-9);
                }
                mc::alive();
            }
        });
    }
    // products of gates on 3 and 4 qubits
    void circuits() {
        const unsigned n  = 3 + mc::choose(2, "qubits-3");
        const unsigned g1 = mc::choose(12, "gate"), g2 = mc::choose(12, "gate");
        const auto     ni = static_cast<int>(n);
        auto           p  = std::make_unique<Pkg<Mid>>(n);
        const auto     gate = [&](unsigned k) {
            const auto nq = static_cast<dd::QubitCount>(n);
            switch (k) {
                case 0: return p->makeGateDD(dd::Hmat, nq, 0);
                case 1: return p->makeGateDD(dd::Hmat, nq, static_cast<dd::Qubit>(n - 1));
                case 2: return p->makeGateDD(dd::Xmat, nq, dd::Control{0}, 2);
                case 3: return p->makeGateDD(dd::Xmat, nq, dd::Control{2}, 0);
                case 4: return p->makeGateDD(dd::Xmat, nq, dd::Controls{dd::Control{0}, dd::Control{2, dd::Control::Type::neg}}, 1);
                case 5: return p->makeSWAPDD(nq, dd::Controls{}, 0, 2);
                case 6: return p->makeGateDD(dd::RYmat(0.7), nq, dd::Control{1}, 0);
                case 7: return p->makeGateDD(dd::Tmat, nq, 1);
                case 8: return p->makeGateDD(dd::Ymat, nq, 1);
                case 9: return p->makeiSWAPDD(nq, dd::Controls{}, 1, 2);
                case 10: return p->makeGateDD(dd::RXmat(1.1), nq, 2);
                default: return p->makeIdent(nq);
            }
        };
        const auto m = p->multiply(gate(g1), gate(g2));
        const auto a = mat(m, ni);
        p->incRef(m);
        for (unsigned s = 0; s < (1U << n); ++s) {
            for (const bool reg: {true, false}) {
                reduce(*p, m, a, ni, s, 0, reg, false, false);
            }
        }
        p->garbageCollect(true);
        expect(mat(m, ni), a, "matrix after reductions", 1e-10);
    }
    // entries of very different size: what remains may vanish within the tolerance
    void tiny() {
        const unsigned n = 1 + mc::choose(3, "qubits-1");
        const unsigned b = mc::choose(8, "size per column bit"), c = mc::choose(8, "size per row bit");
        const auto     ni = static_cast<int>(n);
        const double   f  = std::pow(10., -static_cast<double>(b)), g = std::pow(10., -static_cast<double>(c));
        auto           p  = std::make_unique<Pkg<Mid>>(n);
        for (unsigned s = 0; s < (1U << n); ++s) {
            for (const bool reg: {true, false}) {
                M a(1ULL << n);
                for (std::size_t i = 0; i < a.d; ++i) {
                    for (std::size_t j = 0; j < a.d; ++j) {
                        const auto r = __builtin_popcountll(~i & (a.d - 1)), k = __builtin_popcountll(~j & (a.d - 1));
                        a(i, j)      = std::pow(f, k) * std::pow(g, r);
                    }
                }
                reduce(*p, p->makeDDFromMatrix(cmat(a)), a, ni, s, 0, reg, true, false);
                for (const double x: {1e-4, 1e-8, 1e-11}) {
                    reduce(*p, scaled(*p, p->makeDDFromMatrix(cmat(a)), x), ref::scale(a, x), ni, s, 0, reg, true, false);
                }
            }
        }
    }
    void initial() {
        const unsigned n = 1 + mc::choose(7, "qubits-1");
        const unsigned c = mc::choose(2, "tables");
        withCfg(c, [&](auto t) {
            auto p = std::make_unique<Pkg<typename decltype(t)::type>>(n + 1);
            for (unsigned s = 0; s < (1U << n); ++s) {
                M id(1ULL << n);
                for (std::size_t i = 0; i < id.d; ++i) {
                    id(i, i) = 1;
                }
                const auto e = p->createInitialMatrix(static_cast<dd::QubitCount>(n), bits(s, n + s % 2));
                if (s % 3 == 2) {
                    p->garbageCollect(true);
                }
                expect(mat(e, static_cast<int>(n)), zeroed(id, s, true), "initial matrix", 1e-12);
                p->decRef(e);
                p->garbageCollect(true);
                MC_CHECK(p->mUniqueTable.getNodeCount() == 0, "nodes of an initial matrix are kept after its release");
                MC_CHECK(p->makeIdent(static_cast<dd::QubitCount>(n)).p->v == static_cast<int>(n) - 1, "identity after an initial matrix");
                mc::alive();
            }
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C30", argc, argv,
                   {{"small-used", 4, false, used},
                    {"small-alone", 2, false, alone},
                    {"larger", 3, false, larger},
                    {"circuits", 3, false, circuits},
                    {"tiny", 3, false, tiny},
                    {"initial", 2, false, initial}},
                   {"6561 matrices of 1 and 4096 of 2 qubits with 8 root factors, 16 patterns on 3 and 4 (5) qubits, all products of two of 12 gates on 3 and 4 qubits, scalars, entries falling by powers of ten per qubit; all ancillary sets, lists longer than the matrix, both orientations, repeated and successive reductions; fresh, used and collected packages; references and stored nodes counted in fresh packages; initial matrices of 1 to 7 qubits",
                    {"the list of ancillaries covers at least the qubits of the matrix", "a reference is held on the input"}});
}
