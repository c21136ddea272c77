// C17: collections never damage referenced diagrams, and nothing discarded is ever returned again.
#include "machine.hpp"
using namespace ddx;
namespace {
    // all histories; a forced collection may follow every operation
    void histories(unsigned n, unsigned cfg, unsigned depth, const std::vector<unsigned>& ops, bool gaps) {
        const unsigned len = 1 + mc::choose(depth, "length-1");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto       p = std::make_unique<P>(n);
            Machine<P> m(*p, static_cast<int>(n));
            m.start();
            unsigned o = 0;
            if (gaps && mc::choose(2, "collect") == 1) {
                p->garbageCollect(true);
            }
            for (unsigned d = 0; d < len; ++d) {
                o = ops[mc::choose(static_cast<unsigned>(ops.size()), "op")];
                if (!m.step(o)) {
                    mc::prune();
                }
                if (gaps && d + 1 < len && mc::choose(2, "collect") == 1) {
                    p->garbageCollect(true);
                }
            }
            m.verify(opName(o));
            for (int k = 0; k < 2; ++k) {
                p->garbageCollect(true);
                const std::string w = std::string("a collection after ") + opName(o);
                m.verify(w.c_str());
                RefModel r;
                m.roots(r);
                r.check(*p, w, false);
                if (k == 0) { // reuse everything that was discarded
                    warm(*p, static_cast<int>(n), 1);
                }
            }
        });
    }
    std::vector<unsigned> allOps() {
        std::vector<unsigned> r;
        for (unsigned o = 0; o < Collect; ++o) {
            r.push_back(o);
        }
        return r;
    }
    void pairs() {
        const unsigned n = 1 + mc::choose(3, "n-1");
        histories(n, mc::choose(2, "cfg"), 2, allOps(), true);
    }
    void triples() {
        histories(2, mc::thorough() ? mc::choose(2, "cfg") : 0, 3, allOps(), mc::thorough());
    }
    void deeper() {
        static const std::vector<std::vector<unsigned>> A{
                {VMul, VAdd, VSwap, VDrop, VMeasure0, VGen, MMul, MSwapR, Collect},
                {MGen, MMul, MAdd, MAdj, MSwapR, MDrop, MTof, MIdent, Collect},
                {DZero, DGate, DGate2, DDrop, MH, MDrop, VMul, Read, Collect}};
        histories(2, 0, mc::thorough() ? 6 : 5, A[mc::choose(3, "alphabet")], false);
    }

    // Recompute: an operation is performed, some of the diagrams involved are discarded and their memory is
    // reused by other operands; the same kind of operation must then not return what was computed before.
    // static numbers only: collections then discard nodes but no numbers
    const std::vector<C> STATIC{{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {S2, 0}};
    const std::vector<C> OTHER{{0, 0}, {1, 0}, {0.6, -0.8}, {0.3, 0}, {0, -0.7}};
    template<class P>
    struct Env {
        P&                     p;
        int                    n;
        std::vector<dd::vEdge> hv; // held
        std::vector<dd::mEdge> hm;
        std::vector<dd::dEdge> hd;
    };
    V vOf(unsigned k, int n, bool st) {
        const auto& a = st ? STATIC : OTHER;
        if (n == 1) {
            static const unsigned T[][2] = {{1, 0}, {0, 1}, {1, 2}, {1, 3}, {2, 1}, {3, 4}, {1, 1}};
            return {a[T[k][0]], a[T[k][1]]};
        }
        static const unsigned T[][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {1, 1, 0, 2}, {0, 3, 1, 0}, {1, 1, 1, 1}, {0, 0, 2, 1}, {1, 2, 3, 1}};
        return {a[T[k][0]], a[T[k][1]], a[T[k][2]], a[T[k][3]]};
    }
    M mOf(unsigned k, int n, bool st) {
        const auto& a = st ? STATIC : OTHER;
        static const unsigned T[][4] = {{1, 0, 0, 2}, {0, 1, 1, 0}, {1, 1, 0, 2}, {0, 3, 1, 0}, {1, 3, 2, 1}, {0, 0, 2, 1}, {0, 1, 3, 0}};
        M r(2);
        for (int i = 0; i < 4; ++i) {
            r.a[static_cast<std::size_t>(i)] = a[T[k][i]];
        }
        if (n == 2) {
            r = ref::kron(r, mOf((k + 2) % 7, 1, st));
            if (k % 2 == 1) {
                r(0, 3) = a[1];
            }
        }
        return r;
    }
    constexpr unsigned NOPS = 15;
    const char*        opN(unsigned o) {
        static const char* const N[] = {"state addition", "inner product", "state kronecker", "matrix-state product", "matrix addition", "matrix product", "transpose", "adjoint", "matrix kronecker", "fidelity", "density evolution", "toffoli", "identity", "expectation value", "trace"};
        return N[o];
    }
    // perform operation o on operands number a, b; keep: bit 0: left operand, bit 1: right operand, bit 2: result
    template<class P>
    void perform(Env<P>& E, unsigned o, unsigned a, unsigned b, bool st, unsigned keep, const std::string& what, C scale = {1, 0}) {
        P&         p = E.p;
        const int  n = E.n;
        const auto nq = static_cast<dd::QubitCount>(n);
        const auto V_ = [&](unsigned k, unsigned bit) {
            const auto e = scaled(p, p.makeStateFromVector(cvec(vOf(k, n, st))), bit == 0 ? scale : C{1, 0});
            if ((keep >> bit & 1U) != 0) {
                p.incRef(e);
                E.hv.push_back(e);
            }
            return e;
        };
        const auto M_ = [&](unsigned k, unsigned bit) {
            const auto e = scaled(p, p.makeDDFromMatrix(cmat(mOf(k, n, st))), bit == 0 ? scale : C{1, 0});
            if ((keep >> bit & 1U) != 0) {
                p.incRef(e);
                E.hm.push_back(e);
            }
            return e;
        };
        const auto rv = [&](const dd::vEdge& e, const V& want, int m) {
            expect(vec(e, m), want, what);
            if ((keep & 4U) != 0) {
                p.incRef(e);
                E.hv.push_back(e);
            }
        };
        const auto rm = [&](const dd::mEdge& e, const M& want, int m) {
            expect(mat(e, m), want, what);
            if ((keep & 4U) != 0) {
                p.incRef(e);
                E.hm.push_back(e);
            }
        };
        const auto va = ref::scale(vOf(a, n, st), scale);
        const auto ma = ref::scale(mOf(a, n, st), scale);
        const auto vb = vOf(b, n, st);
        const auto mb = mOf(b, n, st);
        switch (o) {
            case 0: {
                const auto x = V_(a, 0);
                rv(p.add(x, V_(b, 1)), ref::add(va, vb), n);
                break;
            }
            case 1: {
                const auto x = V_(a, 0);
                expect(cv(p.innerProduct(x, V_(b, 1))), ref::inner(va, vb), what);
                break;
            }
            case 2: {
                const auto x = V_(a, 0);
                rv(p.kronecker(x, V_(b, 1)), ref::kron(va, vb), 2 * n);
                break;
            }
            case 3: {
                const auto x = M_(a, 0);
                rv(p.multiply(x, V_(b, 1)), ref::mul(ma, vb), n);
                break;
            }
            case 4: {
                const auto x = M_(a, 0);
                rm(p.add(x, M_(b, 1)), ref::add(ma, mb), n);
                break;
            }
            case 5: {
                const auto x = M_(a, 0);
                rm(p.multiply(x, M_(b, 1)), ref::mul(ma, mb), n);
                break;
            }
            case 6: rm(p.transpose(M_(a, 0)), ref::transpose(ma), n); break;
            case 7: rm(p.conjugateTranspose(M_(a, 0)), ref::adjoint(ma), n); break;
            case 8: {
                const auto x = M_(a, 0);
                rm(p.kronecker(x, M_(b, 1)), ref::kron(ma, mb), 2 * n);
                break;
            }
            case 9: {
                const auto x = V_(a, 0);
                expect(C{p.fidelity(x, V_(b, 1)), 0}, C{std::norm(ref::inner(va, vb)), 0}, what);
                break;
            }
            case 10: {
                auto d = p.makeZeroDensityOperator(nq);
                p.incRef(d);
                M want(1ULL << n);
                want(0, 0) = 1;
                for (const unsigned k: {a, b}) {
                    const C    g[4] = {mOf(k, 1, st).a[0], mOf(k, 1, st).a[1], mOf(k, 1, st).a[2], mOf(k, 1, st).a[3]};
                    const auto u    = p.makeGateDD(gm(g), nq, 0);
                    p.applyOperationToDensity(d, u, true);
                    const auto U = ref::gate(n, g, 0);
                    want         = ref::mul(ref::mul(U, want), ref::adjoint(U));
                }
                auto       e = d;
                const auto x = p.getDensityMatrix(e);
                M          got(want.d);
                for (std::size_t i = 0; i < want.d; ++i) {
                    for (std::size_t j = 0; j < want.d; ++j) {
                        got(i, j) = C{x[i][j].real(), x[i][j].imag()};
                    }
                }
                expect(got, want, what);
                if ((keep & 4U) != 0) {
                    E.hd.push_back(d);
                } else {
                    dd::dEdge::alignDensityEdge(d);
                    p.decRef(d);
                }
                break;
            }
            case 11: {
                const auto x = static_cast<dd::Qubit>(a % 3);
                const auto y = static_cast<dd::Qubit>((a % 3 + 1 + b % 2) % 3);
                const C    g[] = {0, 1, 1, 0};
                rm(p.makeGateDD(dd::Xmat, 3, dd::Controls{dd::Control{x, (a / 3) % 2 == 0 ? dd::Control::Type::pos : dd::Control::Type::neg}, dd::Control{static_cast<dd::Qubit>(3 - x - y)}}, y), ref::gate(3, g, y, {{x, (a / 3) % 2 == 0}, {3 - x - y, true}}), 3);
                break;
            }
            case 12: rm(p.makeIdent(static_cast<dd::QubitCount>(1 + (a + b) % 3)), ref::ident(2ULL << ((a + b) % 3)), static_cast<int>(1 + (a + b) % 3)); break;
            case 13: {
                const M h = ref::add(mb, ref::adjoint(mb));
                const auto v = V_(a, 0);
                const auto x = p.makeDDFromMatrix(cmat(h));
                if (x.isTerminal() || v.isTerminal()) {
                    break;
                }
                p.incRef(x); // collects by itself when a limit is reached
                p.incRef(v);
                expect(C{p.expectationValue(x, v), 0}, ref::inner(va, ref::mul(h, va)), what);
                p.decRef(x);
                p.decRef(v);
                break;
            }
            default: expect(cv(p.trace(M_(a, 0))), ref::trace(ma), what); break;
        }
        mc::op();
    }
    template<class P>
    void filler(P& p, int n, unsigned f) {
        switch (f) {
            case 0: break;
            case 1: (void)p.makeBasisState(static_cast<dd::QubitCount>(n), std::vector<bool>(static_cast<std::size_t>(n), true)); break;
            case 2: (void)p.makeGateDD(dd::Hmat, static_cast<dd::QubitCount>(n), 0); break;
            default:
                (void)p.makeStateFromVector(cvec(vecPat(n, 6)));
                (void)p.makeDDFromMatrix(cmat(matPat(n, 8)));
                break;
        }
    }
    void recompute() {
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned n    = 1 + mc::choose(2, "n-1");
        const unsigned o    = mc::choose(NOPS, "op");
        const unsigned st   = mc::choose(2, "static-numbers");
        const unsigned keep = mc::thorough() ? mc::choose(8, "keep") : 7 & (0x7430U >> (4 * mc::choose(4, "keep")));
        const unsigned a    = mc::choose(7, "a");
        const unsigned b    = mc::choose(7, "b");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(4);
            const unsigned F = mc::thorough() ? 4 : 1;
            for (unsigned c = 0; c < 49 * F; ++c) {
                Env<P>     E{*p, static_cast<int>(n), {}, {}, {}};
                const auto w = std::string(opN(o)) + " of operands " + std::to_string(a) + ", " + std::to_string(b);
                perform(E, o, a, b, st == 1, keep, w);
                p->garbageCollect(true);
                const unsigned f = (c / 49 + (mc::thorough() ? 0 : a + b)) % 4;
                filler(*p, static_cast<int>(n), f);
                const auto w2 = std::string(opN(o)) + " of operands " + std::to_string(c % 7) + ", " + std::to_string(c / 7 % 7) + " after discarding those of " + w;
                perform(E, o, c % 7, c / 7 % 7, st == 1, 0, w2);
                perform(E, o, a, b, st == 1, 0, "again: " + w);
                mc::alive();
                for (const auto& e: E.hv) {
                    p->decRef(e);
                }
                for (const auto& e: E.hm) {
                    p->decRef(e);
                }
                for (auto e: E.hd) {
                    dd::dEdge::alignDensityEdge(e);
                    p->decRef(e);
                }
                p->garbageCollect(true);
            }
            mc::state(mc::mix(mc::mix(o, keep), a * 7 + b));
        });
    }
    // only numbers are discarded: operands and results stay, but are requested with other root weights
    void weights() {
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned n    = 1 + mc::choose(2, "n-1");
        const unsigned o    = mc::choose(NOPS, "op");
        const unsigned st   = mc::choose(2, "static-numbers");
        const unsigned a    = mc::choose(7, "a");
        const unsigned b    = mc::choose(7, "b");
        static const C S[]  = {{0.6, 0.8}, {0.8, 0.6}, {0.3, -0.4}, {0, 0.35}, {-0.9, 0.2}, {0.2, 0.9}, {1.7, 0}};
        if (o == 10 || o == 11 || o == 12) {
            mc::prune();
        }
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto   p = std::make_unique<P>(4);
            Env<P> E{*p, static_cast<int>(n), {}, {}, {}};
            perform(E, o, a, b, st == 1, 7, opN(o)); // everything stays
            p->garbageCollect(true);
            for (const auto& s: S) {
                for (const auto& u: S) {
                    const auto w = std::string(opN(o)) + " of operands " + std::to_string(a) + ", " + std::to_string(b) + " times ";
                    perform(E, o, a, b, st == 1, 0, w + ref::str(s), s);
                    p->garbageCollect(true);
                    perform(E, o, a, b, st == 1, 0, w + ref::str(u), u);
                    perform(E, o, a, b, st == 1, 0, w + ref::str(s), s);
                    mc::alive();
                }
            }
            RefModel r;
            for (const auto& e: E.hv) {
                r.root(e);
            }
            for (const auto& e: E.hm) {
                r.root(e);
            }
            r.check(*p, "after the operations", false);
            mc::state(mc::mix(mc::mix(o, a), b));
        });
    }
    // two kinds of operations across a collection: what one leaves behind must not disturb the other
    void crosswise() {
        const unsigned o1 = mc::choose(NOPS, "first");
        const unsigned o2 = mc::choose(NOPS, "second");
        const unsigned st = mc::choose(2, "static-numbers");
        const unsigned n  = 1 + mc::choose(2, "n-1");
        auto           p  = std::make_unique<Pkg<Tiny>>(4);
        for (unsigned c = 0; c < 7 * 7; ++c) {
            Env<Pkg<Tiny>> E{*p, static_cast<int>(n), {}, {}, {}};
            const auto     a = c % 7;
            const auto     b = c / 7;
            perform(E, o1, a, b, st == 1, 0, opN(o1));
            perform(E, o2, b, a, st == 1, 0, opN(o2));
            p->garbageCollect(true);
            perform(E, o2, (a + 1) % 7, b, st == 1, 0, std::string(opN(o2)) + " after collecting");
            perform(E, o1, (b + 3) % 7, a, st == 1, 0, std::string(opN(o1)) + " after collecting");
            p->garbageCollect(true);
            perform(E, o1, a, b, st == 1, 0, std::string(opN(o1)) + " after collecting");
            perform(E, o2, b, a, st == 1, 0, std::string(opN(o2)) + " after collecting");
            mc::alive();
        }
        mc::state(mc::mix(o1, o2));
    }
    // caches that store diagrams directly: what was discarded, or whose number was discarded, is not returned
    void direct() {
        const unsigned which = mc::choose(5, "cache");
        const unsigned live  = mc::choose(4, "live"); // none, an unrelated state, the stored diagram, the same with another weight
        const unsigned disc  = mc::choose(4, "also"); // discarded besides: a matrix node, a number, a density node, nothing
        const unsigned gate  = mc::choose(3, "gate"); // static numbers only; others; scaled
        const unsigned cfg   = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto       p = std::make_unique<P>(3);
            const auto s = p->makeBasisState(3, std::vector<dd::BasisStates>(3, dd::BasisStates::left));
            if (live == 1) {
                p->incRef(s);
            }
            if (disc == 0) {
                (void)p->makeGateDD(dd::Ymat, 3, 2);
            } else if (disc == 1) {
                (void)p->cn.lookup(0.12345, 0.54321);
            } else if (disc == 2) {
                (void)p->makeZeroDensityOperator(3);
            }
            auto       g = p->makeGateDD(gate == 1 ? dd::RXmat(0.7) : dd::Hmat, 3, 1);
            const auto h = g;
            if (live == 3) { // nothing else of its kind is left to be discarded
                p->incRef(h);
                p->garbageCollect(true);
                p->decRef(h);
            }
            if (gate == 2) {
                g = scaled(*p, g, C{0.28, 0.96});
            }
            const M G = mat(g, 3);
            if (live == 2) {
                p->incRef(g);
            } else if (live == 3) {
                p->incRef(h);
            }
            const dd::Controls ctl{dd::Control{0}, dd::Control{2, dd::Control::Type::neg}};
            auto               d = which == 2 ? p->makeZeroDensityOperator(2) : dd::dEdge::zero;
            auto               e = d;
            if (which == 0) {
                p->stochasticNoiseOperationCache.insert(0, 1, g);
                MC_CHECK(p->stochasticNoiseOperationCache.lookup(0, 1) == g, "stored operation is not found");
            } else if (which == 1) {
                p->toffoliTable.insert(3, ctl, 1, g);
                MC_CHECK(p->toffoliTable.lookup(3, ctl, 1) == g, "stored operation is not found");
            } else if (which == 2) {
                if (gate == 2) {
                    e = scaled(*p, d, C{0.28, 0.96});
                }
                if (live >= 2) {
                    p->incRef(live == 2 ? e : d);
                }
                p->densityNoise.insert(d, e, {1, 0});
                MC_CHECK(p->densityNoise.lookup(d, {1, 0}).p == e.p, "stored density matrix is not found");
            }
            const bool kept = live == 2 || (live == 3 && gate != 2);
            p->garbageCollect(true);
            const auto w1 = p->cn.lookup(0.9, 0.11); // takes the place of discarded numbers
            const auto w2 = p->cn.lookup(0.13, 0.7);
            (void)w1;
            (void)w2;
            (void)p->makeGateDD(dd::Zmat, 3, dd::Control{0}, 2);
            (void)p->makeGateDD(dd::Tmat, 3, 0);
            if (which < 2) {
                const auto r = which == 0 ? p->stochasticNoiseOperationCache.lookup(0, 1) : p->toffoliTable.lookup(3, ctl, 1);
                // only when everything stored stayed referenced may it still be there
                const bool sameNumber = which == 1 && live == 3 && gate == 2;
                MC_CHECK(r.p == nullptr || kept || sameNumber, "an operation that was discarded is returned from the " << (which == 0 ? "noise" : "toffoli") << " cache");
                if (r.p != nullptr && kept) {
                    expect(mat(r, 3), G, "operation from the cache");
                }
            } else if (which == 2) {
                const auto r = p->densityNoise.lookup(d, {1, 0});
                MC_CHECK(r.p == nullptr || kept, "a density matrix that was discarded is returned from the noise cache");
                MC_CHECK(r.p == nullptr || (r.p == e.p && r.w == e.w), "another density matrix is returned from the noise cache");
            } else {
                const C x[] = {0, 1, 1, 0};
                for (int k = 0; k < 3; ++k) {
                    for (int q = 0; q < 3; ++q) {
                        if (which == 3) {
                            expect(mat(p->makeGateDD(dd::Xmat, 3, dd::Controls{dd::Control{static_cast<dd::Qubit>((q + 1) % 3)}, dd::Control{static_cast<dd::Qubit>((q + 2) % 3)}}, static_cast<dd::Qubit>(q)), 3), ref::gate(3, x, q, {{(q + 1) % 3, true}, {(q + 2) % 3, true}}), "multi-controlled flip");
                        } else {
                            expect(mat(p->makeIdent(static_cast<dd::QubitCount>(q + 1)), q + 1), ref::ident(2ULL << q), "identity");
                        }
                    }
                    p->garbageCollect(true);
                    (void)p->makeGateDD(dd::RYmat(0.1 + k), 3, dd::Control{2}, 0);
                }
            }
            mc::op();
            mc::state(mc::mix(mc::mix(which * 4 + live, disc), gate));
        });
    }
    // sums of density matrices across a collection
    void densitySums() {
        const unsigned st   = mc::choose(2, "static-numbers");
        const unsigned a    = mc::choose(7, "a");
        const unsigned b    = mc::choose(7, "b");
        const unsigned keep = mc::choose(3, "keep");
        const unsigned cfg  = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto       p    = std::make_unique<P>(2);
            const auto make = [&](unsigned k) {
                const auto               m = mOf(k, 1, st == 1);
                std::array<dd::dEdge, 4> e;
                for (std::size_t i = 0; i < 4; ++i) {
                    e[i] = m.a[i] == C{0, 0} ? dd::dEdge::zero : dd::dEdge{dd::dNode::terminal, p->cn.lookup(m.a[i].real(), m.a[i].imag())};
                }
                return p->makeDDNode(0, e);
            };
            const auto value = [&](const dd::dEdge& e) {
                M r(2);
                evalM(e, 1, C{1, 0}, 0, 0, r);
                return r;
            };
            for (unsigned c = 0; c < 49; ++c) {
                const auto x = make(a);
                const auto y = make(b);
                const auto r = p->add(x, y);
                expect(value(r), ref::add(mOf(a, 1, st == 1), mOf(b, 1, st == 1)), "sum of density matrices");
                const auto h = keep == 1 ? x : keep == 2 ? r : dd::dEdge::zero;
                p->incRef(h);
                p->garbageCollect(true);
                const auto x2 = make(c % 7);
                const auto y2 = make(c / 7);
                expect(value(p->add(x2, y2)), ref::add(mOf(c % 7, 1, st == 1), mOf(c / 7, 1, st == 1)), "sum of density matrices after collecting others");
                expect(value(p->add(make(a), make(b))), ref::add(mOf(a, 1, st == 1), mOf(b, 1, st == 1)), "the same sum of density matrices again");
                p->decRef(h);
                p->garbageCollect(true);
            }
            mc::state(mc::mix(mc::mix(st, a), b));
        });
    }
    // collections started by the number limit (which shrinks with every forced collection)
    void numberLimit() {
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned op   = mc::choose(6, "op");
        const unsigned live = mc::choose(4, "live"); // bit 0: state, bit 1: matrix
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto           p = std::make_unique<P>(3);
            constexpr int  n = 3;
            const auto     w = vecPat(n, 13);
            const auto     x = matPat(n, 8);
            for (int k = 0; k < 12; ++k) { // bring the limit down
                (void)p->cn.lookup(0.1 + k, 0.01);
                p->garbageCollect(true);
            }
            const auto v = p->makeStateFromVector(cvec(w));
            const auto m = p->makeDDFromMatrix(cmat(x));
            p->incRef(v);
            p->incRef(m);
            const auto v1 = p->makeStateFromVector(cvec(vecPat(n, 7)));
            const auto m1 = p->makeDDFromMatrix(cmat(matPat(n, 6)));
            p->incRef(v1);
            p->incRef(m1);
            const auto again = [&](const char* what) {
                expect(vec(p->add(v, v1), n), ref::add(w, vecPat(n, 7)), std::string("sum of states ") + what);
                expect(mat(p->add(m, m1), n), ref::add(x, matPat(n, 6)), std::string("sum of matrices ") + what);
                expect(mat(p->multiply(m, m1), n), ref::mul(x, matPat(n, 6)), std::string("product of matrices ") + what);
                expect(mat(p->transpose(m), n), ref::transpose(x), std::string("transpose ") + what);
                expect(mat(p->conjugateTranspose(m1), n), ref::adjoint(matPat(n, 6)), std::string("adjoint ") + what);
                expect(vec(p->multiply(m, v1), n), ref::mul(x, vecPat(n, 7)), std::string("product with a state ") + what);
            };
            if ((live & 1U) != 0) {
                p->incRef(v);
            }
            std::size_t runs = 0;
            for (unsigned k = 0; k < 60; ++k) {
                again("before filling the table");
                for (unsigned j = 0; j < 20; ++j) {
                    const double     th = 0.01 + 0.001 * (k * 20 + j);
                    const auto       g  = p->makeGateDD(dd::RYmat(th), n, static_cast<dd::Qubit>(j % 3));
                    const C          r[] = {std::cos(th / 2), -std::sin(th / 2), std::sin(th / 2), std::cos(th / 2)};
                    const auto       y  = p->multiply(g, v);
                    expect(vec(y, n), ref::mul(ref::gate(n, r, static_cast<int>(j % 3)), w), "rotated state");
                    if ((live & 2U) != 0) {
                        expect(mat(p->multiply(g, m), n), ref::mul(ref::gate(n, r, static_cast<int>(j % 3)), x), "product");
                    }
                }
                const auto before = p->cn.complexTable.getCount();
                switch (op) {
                    case 0: p->garbageCollect(false); break;
                    case 1: {
                        auto e = p->makeZeroState(n);
                        p->incRef(e);
                        std::mt19937_64 rng(1);
                        (void)p->measureAll(e, true, rng);
                        p->decRef(e);
                        break;
                    }
                    case 2: {
                        const auto h = p->makeGateDD(dd::Zmat, n, 0);
                        p->incRef(h);
                        const C z[] = {1, 0, 0, -1};
                        expect(C{p->expectationValue(h, v), 0}, ref::inner(w, ref::mul(ref::gate(n, z, 0), w)), "expectation value");
                        p->decRef(h);
                        break;
                    }
                    case 3: (void)p->garbageCollect(); break;
                    case 4:
                        p->garbageCollect(false);
                        p->garbageCollect(true);
                        break;
                    default:
                        p->clearComputeTables();
                        p->garbageCollect(false);
                        break;
                }
                runs += p->cn.complexTable.getCount() < before ? 1 : 0;
                std::vector<dd::Complex> junk; // takes the place of discarded numbers
                for (unsigned j = 0; j < 40; ++j) {
                    junk.push_back(p->cn.lookup(0.5001 + 0.0003 * j + 0.00001 * k, 0.0002 * j + 0.4));
                }
                again("after a collection by limit");
                expect(vec(v, n), w, "referenced state");
                expect(mat(m, n), x, "referenced matrix");
                RefModel r;
                r.root(v);
                r.root(m);
                r.root(v1);
                r.root(m1);
                r.check(*p, "after a collection by limit", false);
                mc::alive();
            }
            MC_CHECK(runs > 0, "harness error: the limit was never reached");
            mc::state(mc::mix(op, live));
        });
    }
    // collections started by the node limits, with the default table sizes
    struct Large: dd::DDPackageConfig {
        static constexpr std::size_t UT_DM_NBUCKET                 = 32768U;
        static constexpr std::size_t UT_DM_INITIAL_ALLOCATION_SIZE = 2048U;
    };
    void nodeLimit() {
        const unsigned kind = mc::choose(3, "kind");
        const unsigned call = mc::choose(2, "call");
        auto           p    = std::make_unique<dd::Package<Large>>(18);
        const auto     v    = p->makeStateFromVector(cvec(vecPat(4, 13)));
        const auto     m    = p->makeDDFromMatrix(cmat(matPat(3, 8)));
        p->incRef(v);
        p->incRef(m);
        // diagrams over few numbers but many nodes: the node limit is reached before the number limit
        const dd::Complex W[] = {dd::Complex::one, p->cn.lookup(-1., 0.), p->cn.lookup(0., 1.), p->cn.lookup(0., -1.)};
        const auto        fill = [&](auto node, std::size_t limit, const auto& count) {
            using Node = decltype(node);
            using E    = dd::Edge<Node>;
            constexpr std::size_t K = std::tuple_size_v<decltype(node.e)>;
            std::vector<E>        pool;
            for (std::size_t c = 0; c < 4096 && pool.size() < (K == 2 ? 4 : 8); ++c) {
                std::array<E, K> e;
                for (std::size_t i = 0; i < K; ++i) {
                    e[i] = E{Node::terminal, i == 0 ? W[0] : W[c >> (2 * i - 2) & 3U]};
                }
                pool.push_back(p->makeDDNode(0, e));
            }
            for (int level = 1; level < 8; ++level) {
                std::vector<E>        next;
                const std::size_t     m = pool.size();
                for (std::size_t c = 0; c < m * ipow(4 * m, K - 1); ++c) {
                    std::array<E, K> e;
                    auto             x = c;
                    e[0]               = E{pool[x % m].p, W[0]};
                    x /= m;
                    for (std::size_t i = 1; i < K; ++i) {
                        e[i] = E{pool[x / 4 % m].p, W[x % 4]};
                        x /= 4 * m;
                    }
                    next.push_back(p->makeDDNode(static_cast<dd::Qubit>(level), e));
                    if (count() >= limit || (K == 2 && level == 2 && next.size() >= 300)) {
                        break;
                    }
                }
                if (count() >= limit) {
                    return;
                }
                mc::alive();
                pool = next;
            }
        };
        for (unsigned k = 0; k < 2; ++k) {
            const auto nodes = [&] { return kind == 0 ? p->vUniqueTable.getNodeCount() : kind == 1 ? p->mUniqueTable.getNodeCount() : p->dUniqueTable.getNodeCount(); };
            const std::size_t limit = 131072 + k * 10;
            if (kind == 0) {
                fill(dd::vNode{}, limit, nodes);
            } else if (kind == 1) {
                fill(dd::mNode{}, limit, nodes);
            } else {
                fill(dd::dNode{}, limit, nodes);
            }
            if (nodes() < limit) {
                mc::fail("harness error: only " + std::to_string(nodes()) + " nodes were made");
            }
            (void)(call == 0 ? p->garbageCollect(false) : p->garbageCollect());
            expect(vec(v, 4), vecPat(4, 13), "referenced state after filling the table");
            expect(mat(m, 3), matPat(3, 8), "referenced matrix after filling the table");
            const C h[] = {S2, S2, S2, -S2};
            expect(vec(p->multiply(p->makeGateDD(dd::Hmat, 4, 2), v), 4), ref::mul(ref::gate(4, h, 2), vecPat(4, 13)), "gate on the referenced state");
            expect(mat(p->multiply(p->makeGateDD(dd::Hmat, 3, 1), m), 3), ref::mul(ref::gate(3, h, 1), matPat(3, 8)), "gate on the referenced matrix");
            expect(cv(p->innerProduct(v, v)), ref::inner(vecPat(4, 13), vecPat(4, 13)), "inner product of the referenced state");
            RefModel rm;
            rm.root(v);
            rm.root(m);
            rm.check(*p, "after filling the table", false);
            mc::alive();
        }
        mc::state(mc::mix(kind, call));
    }
    // long alternation of two operations with collections every few steps
    void marathon() {
        const unsigned o1 = mc::choose(Collect, "first");
        const unsigned o2 = mc::choose(Collect, "second");
        const unsigned k0 = mc::choose(mc::thorough() ? 4 : 2, "period");
        auto           p  = std::make_unique<Pkg<Tiny>>(2);
        Machine<Pkg<Tiny>> m(*p, 2);
        m.start();
        for (unsigned i = 0; i < 16; ++i) {
            (void)m.step(i % 2 == 0 ? o1 : o2);
            if (i % (k0 + 2) == 0) {
                p->garbageCollect(true);
            }
            if (i % 4 == 3) {
                (void)m.step(VSwap);
                (void)m.step(MSwapR);
            }
            double big = 0;
            for (const auto& x: m.dv) {
                big = std::max(big, scaleOf(x));
            }
            for (const auto& x: m.dm) {
                big = std::max(big, scaleOf(x.a));
            }
            if (big > 16) { // keep within the absolute tolerance
                m.step(VProd);
                m.step(MH);
            }
            m.verify(opName(i % 2 == 0 ? o1 : o2));
        }
        RefModel r;
        m.roots(r);
        r.check(*p, "at the end", false);
    }
    void wide() {
        const unsigned sizes[] = {16, 32, 64, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned cfg     = mc::choose(2, "cfg");
        const unsigned every   = 1 + mc::choose(3, "collect-every") * 3;
        withCfg(cfg, [&](auto t) {
            using P        = Pkg<typename decltype(t)::type>;
            auto       p   = std::make_unique<P>(n);
            const auto nq  = static_cast<dd::QubitCount>(n);
            auto       e   = p->makeZeroState(nq);
            p->incRef(e);
            const auto id = p->makeIdent(nq);
            p->incRef(id);
            for (unsigned q = 0; q < n; ++q) {
                const auto g = q == 0 ? p->makeGateDD(dd::RYmat(0.9), nq, 0) : p->makeGateDD(dd::Xmat, nq, dd::Control{static_cast<dd::Qubit>(q - 1)}, static_cast<dd::Qubit>(q));
                const auto f = p->multiply(g, e);
                p->incRef(f);
                p->decRef(e);
                e = f;
                if (q % every == 0) {
                    p->garbageCollect(true);
                }
                std::string s(n, '0');
                expect(cv(p->getValueByPath(e, s)), C{std::cos(0.45), 0}, "amplitude of zero");
                std::fill(s.begin(), s.begin() + q + 1, '1');
                expect(cv(p->getValueByPath(e, s)), C{std::sin(0.45), 0}, "amplitude of ones");
                mc::alive();
            }
            const auto f = p->multiply(id, e);
            MC_CHECK(f == e, "identity times the state is not the state");
            mc::state(n);
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C17", argc, argv,
                   {{"all-pairs", 4, false, pairs},
                    {"all-triples", 3, false, triples},
                    {"deeper", 3, false, deeper},
                    {"recompute", 4, false, recompute},
                    {"weights", 4, false, weights},
                    {"crosswise", 2, false, crosswise},
                    {"direct", 3, false, direct},
                    {"density-sums", 3, false, densitySums},
                    {"number-limit", 2, false, numberLimit},
                    {"node-limit", 2, false, nodeLimit},
                    {"marathon", 2, false, marathon},
                    {"wide-registers", 3, false, wide}},
                   {"all histories of 2 operations out of 42 on 1-3 qubits with every placement of forced collections, all of 3 operations on 2 qubits (thorough: every placement), three alphabets to depth 5 (6), all ordered pairs repeated 16 times with periodic collections; 15 cached operations x 49 operand pairs x 4 (8) choices of what stays alive x 49 following operand pairs in reused memory; root weights discarded while nodes stay; collections started by the number limit and by the node limits of all three tables; circuits to 128 qubits. Every referenced diagram re-evaluated; everything below a root still stored with positive count",
                    {"memory reuse follows the library's own free lists"}});
}
