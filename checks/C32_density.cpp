// C32: evolving a density matrix gives U rho U^dagger, in the plain and in the reduced representation.
#include "ddx.hpp"

#include <map>
#include <unordered_set>
using namespace ddx;
namespace {
    // ---- independent meaning of a density matrix diagram ----------------------------------------------------
    // A plain diagram is a matrix. In the reduced representation (mark 4 on the root pointer) the lower left block
    // of a diagonal block is not stored by itself: it is the conjugate transpose of what is stored in its place.
    bool reduced(const dd::dEdge& e) { return (reinterpret_cast<std::uintptr_t>(e.p) & 7U) == 4U; }
    dd::dNode* plain(dd::dNode* p) { return reinterpret_cast<dd::dNode*>(reinterpret_cast<std::uintptr_t>(p) & ~static_cast<std::uintptr_t>(7)); }
    void node(dd::dNode* p, int level, bool red, M& out);
    M    sub(const dd::dEdge& e, int level, bool red) {
        if (e.p == nullptr) {
            mc::fail("density matrix contains a null successor");
        }
        if ((reinterpret_cast<std::uintptr_t>(e.p) & 7U) != 0U) {
            mc::fail("a density matrix node still has a temporary mark on a successor");
        }
        const C w = val(e.w);
        M       r(1ULL << level);
        if (e.p == dd::dNode::terminal) {
            if (level == 0) {
                r.a[0] = w;
            } else if (w != C{0, 0}) {
                mc::fail("non-zero edge skips levels of a density matrix");
            }
            return r;
        }
        if (level == 0 || e.p->v != level - 1) {
            mc::fail("density matrix node on the wrong level");
        }
        node(e.p, level, red, r);
        return ref::scale(r, w);
    }
    void node(dd::dNode* p, int level, bool red, M& out) {
        if ((p->flags & 7U) != 0U) {
            mc::fail("a density matrix node still has a temporary mark");
        }
        const auto s = sub(p->e[2], level - 1, false);
        out          = blocks(sub(p->e[0], level - 1, red), sub(p->e[1], level - 1, false), red ? ref::adjoint(s) : s, sub(p->e[3], level - 1, red));
    }
    M own(const dd::dEdge& e, int n) {
        const bool red = reduced(e);
        if ((reinterpret_cast<std::uintptr_t>(e.p) & 7U) != 0U && !red) {
            mc::fail("unexpected marks on a density matrix");
        }
        auto x = e;
        x.p    = plain(x.p);
        return sub(x, n, red);
    }
    // entry of a wide diagram (row and column are strings, index = qubit)
    C entryOf(const dd::dEdge& e, const std::string& r, const std::string& c, bool red) {
        const C w = val(e.w);
        auto*   p = plain(e.p);
        if (p == dd::dNode::terminal) {
            return w;
        }
        const auto q = static_cast<std::size_t>(p->v);
        const int  i = r[q] - '0';
        const int  j = c[q] - '0';
        C          x;
        if (red && i == 1 && j == 0) {
            auto s = p->e[2];
            x      = std::conj(entryOf(s, c, r, false)); // of the lower qubits, rows and columns swapped
        } else {
            x = entryOf(p->e[static_cast<std::size_t>(2 * i + j)], r, c, red && i == j);
        }
        return ref::cmul(w, x);
    }
    void drop(dd::dEdge e, bool up, auto& p) {
        dd::dEdge::alignDensityEdge(e);
        up ? p.incRef(e) : p.decRef(e);
    }
    // ---- building arbitrary density matrices ----------------------------------------------------------------
    template<class P>
    dd::dEdge build(P& p, const M& m, int level, bool red) {
        if (level == 0) {
            return m.a[0] == C{0, 0} ? dd::dEdge::zero : dd::dEdge{dd::dNode::terminal, p.cn.lookup(m.a[0].real(), m.a[0].imag())};
        }
        const std::size_t        h = m.d / 2;
        std::array<dd::dEdge, 4> e;
        for (std::size_t k = 0; k < 4; ++k) {
            M b(h);
            for (std::size_t i = 0; i < h; ++i) {
                for (std::size_t j = 0; j < h; ++j) {
                    b(i, j) = m((k / 2) * h + i, (k % 2) * h + j);
                }
            }
            e[k] = build(p, red && k == 2 ? ref::adjoint(b) : b, level - 1, red && (k == 0 || k == 3));
        }
        return p.makeDDNode(static_cast<dd::Qubit>(level - 1), e, false, red);
    }
    template<class P>
    dd::dEdge density(P& p, const M& m, int n, bool red) {
        auto e = build(p, m, n, red);
        p.incRef(e);
        if (red) {
            dd::dEdge::setDensityMatrixTrue(e);
        }
        return e;
    }
    M hermitian(int n, unsigned k) { // mixed and pure states, some not normalized
        const unsigned pats[] = {0, 1, 8, 13, 4, 5, 10, 15, 2, 6};
        if (k == 0) {
            M r(1ULL << n);
            r(0, 0) = 1;
            return r;
        }
        if (k == 1) { // a pure state
            const auto v = vecPat(n, 5);
            M          r(v.size());
            for (std::size_t i = 0; i < v.size(); ++i) {
                for (std::size_t j = 0; j < v.size(); ++j) {
                    r(i, j) = v[i] * std::conj(v[j]);
                }
            }
            return r;
        }
        const auto a = matPat(n, pats[(k - 2) % 10]);
        auto       r = ref::mul(a, ref::adjoint(a));
        double     t = 0;
        for (std::size_t i = 0; i < r.d; ++i) {
            t += r(i, i).real();
        }
        return t == 0 ? r : ref::scale(r, C{1 / t, 0});
    }
    constexpr unsigned NH = 12;

    // ---- operations -----------------------------------------------------------------------------------------
    const std::vector<M>& single() {
        static const double         c = std::cos(0.3);
        static const double         s = std::sin(0.3);
        static const std::vector<M> g{m2(S2, S2, S2, -S2), m2(0, 1, 1, 0), m2(0, C{0, -1}, C{0, 1}, 0), m2(1, 0, 0, C{S2, S2}), m2(c, C{0, -s}, C{0, -s}, c), m2(c, -s, s, c),
                                      m2(1, 0, 0, 0.8), m2(0, 0.6, 0, 0), m2(1, 0, 0, 0), m2(C{0.5, 0.25}, C{0, -0.75}, 1, C{0.25, 1}), m2(1, 0, 0, C{0, 1}), m2(1, 0, 0, -1)};
        return g;
    }
    constexpr unsigned NS = 12;
    struct Op {
        dd::mEdge e;
        M         u;
    };
    template<class P>
    Op opOf(P& p, int n, unsigned k) {
        const auto ns = NS * static_cast<unsigned>(n);
        const auto q  = static_cast<dd::QubitCount>(n);
        if (k < ns) {
            const auto& g = single()[k % NS];
            return {p.makeGateDD(gm(g.a.data()), q, static_cast<dd::Qubit>(k / NS)), ref::gate(n, g.a.data(), static_cast<int>(k / NS))};
        }
        k -= ns;
        const int   a = static_cast<int>(k % 2);            // controlled gates, swaps between all kinds of places
        const int   b = n == 2 ? 1 - a : (k / 2) % 2 == 0 ? 2 : 1 - a;
        const C     sw[16]  = {1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1};
        const C     isw[16] = {1, 0, 0, 0, 0, 0, C{0, 1}, 0, 0, C{0, 1}, 0, 0, 0, 0, 0, 1};
        const auto  A = static_cast<dd::Qubit>(a);
        const auto  B = static_cast<dd::Qubit>(b);
        switch (k / 4 % 4) {
            case 0: {
                const auto& g = single()[1];
                return {p.makeGateDD(gm(g.a.data()), q, dd::Control{A}, B), ref::gate(n, g.a.data(), b, {{a, true}})};
            }
            case 1: {
                const auto& g = single()[5];
                return {p.makeGateDD(gm(g.a.data()), q, dd::Control{A, dd::Control::Type::neg}, B), ref::gate(n, g.a.data(), b, {{a, false}})};
            }
            case 2: return {p.makeSWAPDD(q, dd::Controls{}, A, B), ref::gate2(n, sw, a, b)};
            default: return {p.makeiSWAPDD(q, dd::Controls{}, A, B), ref::gate2(n, isw, a, b)};
        }
    }
    unsigned nops(int n) { return NS * static_cast<unsigned>(n) + (n >= 2 ? 16U : 0U); }

    M dm(const dd::CMat& x) {
        M r(x.size());
        for (std::size_t i = 0; i < x.size(); ++i) {
            for (std::size_t j = 0; j < x.size(); ++j) {
                r(i, j) = C{x[i][j].real(), x[i][j].imag()};
            }
        }
        return r;
    }
    // everything that can be read off a density matrix
    template<class P>
    void look(P& p, const dd::dEdge& e, const M& want, int n, const std::string& what, bool probabilities = true) {
        const auto name = what + (reduced(e) ? " (reduced representation)" : " (plain representation)");
        const auto q    = plain(e.p);
        if (q == dd::dNode::terminal) {
            if (std::abs(val(e.w)) > 1e-9) {
                mc::fail(name + ": the result is a scalar");
            }
            expect(M(1ULL << n), want, name);
            return;
        }
        const auto cached = p.cn.cacheCount();
        expect(own(e, n), want, name);
        auto       x    = e;
        const auto got  = dm(p.getDensityMatrix(x));
        expect(got, want, name + ", extracted");
        MC_CHECK(x.p == e.p, name << ": extracting the matrix changed the edge");
        if (probabilities) {
            const auto th = ref::hash(want) % 4 == 0 ? 0.2 : 0.;
            const auto pr = p.getProbVectorFromDensityMatrix(e, th);
            for (std::size_t i = 0; i < want.d; ++i) {
                std::string key;
                for (int k = 0; k < n; ++k) {
                    key += ((i >> k) & 1U) != 0 ? '1' : '0';
                }
                const auto it = pr.find(key);
                const auto w  = want(i, i).real();
                if (it == pr.end()) {
                    MC_CHECK(w <= th + 1e-9, name << ": outcome " << key << " of probability " << w << " is missing (threshold " << th << ")");
                } else {
                    MC_CHECK(std::abs(it->second - w) < 1e-9, name << ": outcome " << key << " has probability " << it->second << " instead of " << w);
                }
            }
            for (const auto& kv: pr) {
                MC_CHECK(kv.first.size() == static_cast<std::size_t>(n), name << ": outcome '" << kv.first << "' does not have one digit per qubit");
            }
        }
        MC_CHECK(p.cn.cacheCount() == cached, name << ": reading the density matrix lost temporary numbers");
    }
    M evolve(const M& u, const M& r) { return ref::mul(ref::mul(u, r), ref::adjoint(u)); }

    template<class F>
    void with3(unsigned cfg, const F& f) {
        switch (cfg) {
            case 0: f(Tag<Tiny>{}); break;
            case 1: f(Tag<Mid>{}); break;
            default: f(Tag<dd::DDPackageConfig>{}); break;
        }
    }
    template<class P>
    void step(P& p, dd::dEdge& e, M& x, const Op& o, bool red, int n, const std::string& what, bool probabilities = true) {
        const auto cached = p.cn.cacheCount();
        const auto r      = p.applyOperationToDensity(e, o.e, red);
        x                 = evolve(o.u, x);
        MC_CHECK(r == e, what << ": the returned density matrix is not the one stored");
        MC_CHECK(p.cn.cacheCount() == cached, what << ": temporary numbers were not returned");
        look(p, e, x, n, what, probabilities);
    }

    // ---- one and two qubits: all sequences of operations and representations ---------------------------------
    template<unsigned N>
    void sequences() {
        constexpr int  n    = static_cast<int>(N);
        const unsigned cfg  = mc::choose(3, "cfg");
        const unsigned init = mc::choose(NH, "initial state");
        const unsigned r0   = mc::choose(2, "initial representation");
        const unsigned len  = n == 1 ? (mc::thorough() ? 4 : 3) : (mc::thorough() ? 3 : 2);
        const unsigned a    = mc::choose(nops(n), "first operation");
        if (n == 2 && !mc::thorough()) {
            if ((init * 7 + r0 * 3 + cfg) % 3 != a % 3) { // the first operation is spread over initial states
                mc::prune();
            }
        }
        with3(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(N);
            const auto h  = hermitian(n, init);
            const auto b  = nops(n) * 2;
            const auto total = ipow(b, len - 1);
            std::vector<Op> ops;
            for (unsigned k = 0; k < nops(n); ++k) {
                ops.push_back(opOf(*p, n, k));
                p->incRef(ops.back().e);
            }
            // the state after the first step, in each representation, is continued in all ways
            for (unsigned ra = 0; ra < 2; ++ra) {
                auto e = density(*p, h, n, r0 == 1);
                M    x = h;
                look(*p, e, x, n, "initial density matrix");
                step(*p, e, x, ops[a], ra == 1, n, "one operation");
                for (std::size_t k = 0; k < total; ++k) {
                    mc::alive();
                    auto e2 = e;
                    M    x2 = x;
                    drop(e2, true, *p);
                    auto c = k;
                    for (unsigned d = 1; d < len; ++d, c /= b) {
                        const auto s = static_cast<unsigned>(c % b);
                        step(*p, e2, x2, ops[s / 2], s % 2 == 1, n, "several operations", d + 1 == len && s / 2 % 4 == 0);
                    }
                    drop(e2, false, *p);
                    if (k % 64 == 0) {
                        look(*p, e, x, n, "density matrix held while others evolved");
                        if (k % 256 == 0) {
                            p->garbageCollect(true);
                        }
                    }
                }
                look(*p, e, x, n, "density matrix held while others evolved");
                drop(e, false, *p);
            }
            for (unsigned k = 0; k < nops(n); ++k) {
                expect(mat(ops[k].e, n), ops[k].u, "operation after it was applied to density matrices");
                p->decRef(ops[k].e);
            }
            p->garbageCollect(true);
            MC_CHECK(p->dUniqueTable.getNodeCount() == 0, "density matrix nodes remain after everything was released");
            MC_CHECK(p->dUniqueTable.getActiveNodeCount() == 0, "density matrix nodes count as active after everything was released");
        });
    }
    // ---- three registers in one package: steps in any order, releases, copies and collections between ---------
    void registers() {
        const unsigned cfg  = mc::choose(3, "cfg");
        const unsigned n    = 1 + mc::choose(3, "qubits");
        const unsigned len  = mc::thorough() ? 5 : 3;
        const unsigned disc = mc::choose(2, "collections");
        with3(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            const int n_ = static_cast<int>(n);
            auto      p  = std::make_unique<P>(n);
            struct Reg {
                dd::dEdge e;
                M         x;
                bool      g;
            };
            std::vector<Reg> r;
            auto             z = p->makeZeroDensityOperator(static_cast<dd::QubitCount>(n));
            p->incRef(z);
            r.push_back({z, hermitian(n_, 0), false});
            r.push_back({density(*p, hermitian(n_, 1), n_, true), hermitian(n_, 1), true});
            r.push_back({density(*p, hermitian(n_, 4), n_, false), hermitian(n_, 4), true});
            const unsigned pick[] = {0, 3, 4, 9, NS, NS + 2, 2 * NS, 2 * NS + 5};
            for (unsigned d = 0; d < len; ++d) {
                const unsigned k = mc::choose(3 * 6 + 3, "step");
                if (k < 18) {
                    auto&          s = r[k % 3];
                    const unsigned u = pick[k / 3 + (n > 1 ? d % 3 : 0)] % nops(n_);
                    const auto     o = opOf(*p, n_, u);
                    step(*p, s.e, s.x, o, s.g, n_, "evolution step");
                } else { // overwrite one register by a copy of another
                    const auto a = k - 18;
                    const auto b = (a + 1 + d % 2) % 3;
                    drop(r[b].e, true, *p);
                    drop(r[a].e, false, *p);
                    r[a].e = r[b].e;
                    r[a].x = r[b].x;
                    r[a].g = !r[b].g;
                }
                if (disc == 1) {
                    p->garbageCollect(true);
                }
                for (auto& y: r) {
                    look(*p, y.e, y.x, n_, "held density matrix");
                }
            }
            for (auto& y: r) {
                drop(y.e, false, *p);
            }
            p->garbageCollect(true);
            MC_CHECK(p->dUniqueTable.getNodeCount() == 0, "density matrix nodes remain after everything was released");
        });
    }
    // ---- three qubits -----------------------------------------------------------------------------------------
    void three() {
        const unsigned cfg  = mc::choose(3, "cfg");
        const unsigned init = mc::choose(NH, "initial state");
        const unsigned r0   = mc::choose(2, "initial representation");
        const unsigned a    = mc::choose(nops(3), "first operation");
        if (!mc::thorough() && (a + init * 5 + r0 * 11 + cfg * 3) % 16 != 0) {
            mc::prune();
        }
        with3(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            auto h  = hermitian(3, init);
            auto e  = density(*p, h, 3, r0 == 1);
            step(*p, e, h, opOf(*p, 3, a), true, 3, "one operation on three qubits");
            for (unsigned k = 0; k < nops(3) * 2; ++k) {
                mc::alive();
                auto e2 = e;
                auto h2 = h;
                drop(e2, true, *p);
                step(*p, e2, h2, opOf(*p, 3, k / 2), k % 2 == 1, 3, "two operations on three qubits");
                step(*p, e2, h2, opOf(*p, 3, (k + a) % nops(3)), true, 3, "three operations on three qubits");
                drop(e2, false, *p);
            }
            look(*p, e, h, 3, "density matrix held while others evolved");
        });
    }
    // ---- a long history in one package ------------------------------------------------------------------------
    void longRun() {
        const unsigned cfg = mc::choose(3, "cfg");
        const unsigned n   = 1 + mc::choose(3, "qubits");
        const unsigned s   = mc::choose(mc::thorough() ? 48 : 12, "circuit");
        const unsigned red = mc::choose(3, "representation"); // plain, reduced, alternating
        with3(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            const int       n_ = static_cast<int>(n);
            auto            p  = std::make_unique<P>(n);
            auto            e  = density(*p, hermitian(n_, s % NH), n_, false);
            auto            x  = hermitian(n_, s % NH);
            for (unsigned d = 0; d < 60; ++d) {
                const unsigned u = (d * (2 * s + 1) + s * 5 + d * d / 7) % nops(n_);
                if (u < NS * n && (u % NS == 6 || u % NS == 7 || u % NS == 8 || u % NS == 9)) { // keep it from vanishing
                    continue;
                }
                step(*p, e, x, opOf(*p, n_, u), red == 1 || (red == 2 && d % 3 != 0), n_, "operation " + std::to_string(d) + " of a long circuit", d % 4 == 0);
                if (d % 17 == 5) {
                    p->garbageCollect(true);
                    look(*p, e, x, n_, "density matrix after a collection");
                }
            }
        });
    }
    // ---- many qubits ------------------------------------------------------------------------------------------
    void wide() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned ns[] = {4, 6, 9, 16, 33, 64, 128};
        const unsigned n   = ns[mc::choose(7, "qubits")];
        const unsigned red = mc::choose(3, "representation");
        const unsigned dir = mc::choose(2, "direction");
        const unsigned ph  = mc::choose(4, "phase gate");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto       p = std::make_unique<P>(n);
            const auto q = static_cast<dd::QubitCount>(n);
            auto       e = p->makeZeroDensityOperator(q);
            p->incRef(e);
            unsigned   d    = 0;
            const auto rep  = [&] { return red == 1 || (red == 2 && (d++ % 2) == 1); };
            const auto at   = [&](unsigned i) { return static_cast<dd::Qubit>(dir == 0 ? i : n - 1 - i); };
            p->applyOperationToDensity(e, p->makeGateDD(dd::Hmat, q, at(0)), rep());
            for (unsigned i = 1; i < n; ++i) {
                p->applyOperationToDensity(e, p->makeGateDD(dd::Xmat, q, dd::Control{at(i - 1)}, at(i)), rep());
            }
            const C  w[] = {C{0, 1}, C{S2, S2}, C{0.6, -0.8}, C{-1, 0}};
            const C  g[] = {1, 0, 0, w[ph]};
            C        z{1, 0};
            std::string one(n, '1');
            for (unsigned i: {0U, n / 2, n - 1}) {
                p->applyOperationToDensity(e, p->makeGateDD(gm(g), q, at(i)), rep());
                z *= w[ph];
            }
            // flip some qubits: the two branches become x and its complement
            std::string x(n, '0');
            for (unsigned i = 1; i < n; i += 3) {
                p->applyOperationToDensity(e, p->makeGateDD(dd::Xmat, q, static_cast<dd::Qubit>(i)), rep());
                x[i]   = '1';
                one[i] = '0';
            }
            p->garbageCollect(true);
            const bool r = reduced(e);
            const auto f = [&](const std::string& a, const std::string& b) { return entryOf(e, a, b, r); };
            expect(f(x, x), C{0.5, 0}, "diagonal entry of a wide density matrix");
            expect(f(one, one), C{0.5, 0}, "diagonal entry of a wide density matrix");
            expect(f(one, x), z * 0.5, "off-diagonal entry of a wide density matrix");
            expect(f(x, one), std::conj(z) * 0.5, "off-diagonal entry of a wide density matrix");
            for (unsigned i = 0; i < n; ++i) {
                auto y = x;
                y[i]   = y[i] == '0' ? '1' : '0';
                expect(f(x, y), C{0, 0}, "zero entry of a wide density matrix");
                expect(f(y, x), C{0, 0}, "zero entry of a wide density matrix");
                expect(f(y, y), C{0, 0}, "zero entry of a wide density matrix");
                expect(f(one, y), n == 1 ? 0.5 * z : C{0, 0}, "zero entry of a wide density matrix");
            }
            if (n <= 9) {
                const auto pr = p->getProbVectorFromDensityMatrix(e, 0.01);
                MC_CHECK(pr.size() == 2 && pr.count(x) == 1 && pr.count(one) == 1 && std::abs(pr.at(x) - 0.5) < 1e-9 && std::abs(pr.at(one) - 0.5) < 1e-9, "wrong outcome probabilities of a " << n << "-qubit density matrix");
            }
            drop(e, false, *p);
            p->garbageCollect(true);
            MC_CHECK(p->dUniqueTable.getNodeCount() == 0, "density matrix nodes remain after everything was released");
            mc::state(mc::mix(mc::mix(n, red), dir * 4 + ph));
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C32", argc, argv, {{"sequences1", 3, false, sequences<1>}, {"sequences2", 4, false, sequences<2>}, {"registers", 4, false, registers}, {"three", 4, false, three}, {"long", 4, false, longRun}, {"wide", 5, false, wide}},
                   {"1-3 qubits; 12 initial density matrices (pure, mixed, not normalized) in both representations; 12 single-qubit operations per qubit (4 of them not unitary), controlled, SWAP and iSWAP operations; all sequences of 3 operations on 1 qubit (4 thorough), 2 on 2 qubits (3 thorough), 3 on 3 qubits (subset), 60 steps (12 circuits); every choice of representation per step; three density matrices in one package with copies and collections; up to 128 qubits for GHZ states",
                    {"the dense reference and the independent reading of the reduced representation are correct", "summands of a sum are not marked as reduced (the library asserts this)"}});
}
