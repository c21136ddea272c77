// C19: results depend on the operands only, not on what was computed before or on the size of the caches.
#include "machine.hpp"
using namespace ddx;
namespace {
    struct Two: Mid { // two slots per cache
        static constexpr std::size_t CT_VEC_ADD_NBUCKET        = 2U;
        static constexpr std::size_t CT_MAT_ADD_NBUCKET        = 2U;
        static constexpr std::size_t CT_MAT_TRANS_NBUCKET      = 2U;
        static constexpr std::size_t CT_MAT_CONJ_TRANS_NBUCKET = 2U;
        static constexpr std::size_t CT_MAT_VEC_MULT_NBUCKET   = 2U;
        static constexpr std::size_t CT_MAT_MAT_MULT_NBUCKET   = 2U;
        static constexpr std::size_t CT_VEC_KRON_NBUCKET       = 2U;
        static constexpr std::size_t CT_MAT_KRON_NBUCKET       = 2U;
        static constexpr std::size_t CT_VEC_INNER_PROD_NBUCKET = 2U;
        static constexpr std::size_t CT_DM_DM_MULT_NBUCKET     = 2U;
        static constexpr std::size_t CT_DM_ADD_NBUCKET         = 2U;
    };
    template<class F>
    void with3(unsigned c, F f) {
        if (c == 2) {
            f(Tag<Two>{});
        } else {
            withCfg(c, f);
        }
    }
    constexpr unsigned NV = 6;
    constexpr unsigned NM = 6;
    // operands; some are multiples of others so that only the root weight differs
    struct Operands {
        std::vector<V> v;
        std::vector<M> m;
        Operands(int n, unsigned set) {
            const std::size_t N = 1ULL << n;
            const auto        a = vecPat(n, set == 0 ? 2 : set == 1 ? 13 : 9);
            const auto        b = vecPat(n, set == 0 ? 4 : set == 1 ? 6 : 7);
            v                   = {a, ref::scale(a, C{-1, 0}), ref::scale(a, C{0.6, 0.8}), b, ref::scale(b, C{0, 0.5}), vecPat(n, 0)};
            const C h[]         = {S2, S2, S2, -S2};
            const C s[]         = {1, 0, 0, C{0, 1}};
            const auto g        = set == 0 ? ref::gate(n, h, 0) : matPat(n, set == 1 ? 8 : 2);
            const auto k        = set == 0 ? ref::gate(n, s, n - 1) : matPat(n, set == 1 ? 6 : 3);
            m                   = {g, ref::scale(g, C{0, -1}), ref::scale(g, C{0.8, 0.6}), k, ref::ident(N), ref::scale(ref::ident(N), C{0.5, 0})};
        }
    };
    // query numbers: 0..  state pairs x {add, inner, fidelity, kron}, matrix pairs x {add, mul, kron},
    // matrix-state pairs, matrices x {transpose, adjoint, trace, ptrace, expectation x 2}, builders
    constexpr unsigned NQ = 4 * NV * NV + 3 * NM * NM + NM * NV + 6 * NM + 14;
    struct Answer {
        dd::vEdge v{nullptr, dd::Complex::zero};
        dd::mEdge m{nullptr, dd::Complex::zero};
        C         c{0, 0};
        int       kind = 0; // 1: state, 2: matrix, 3: number
        V         dv;
        M         dm;
        int       n = 0;
    };
    template<class P>
    struct Asker {
        P&                     p;
        int                    n;
        Operands               o;
        std::vector<dd::vEdge> v;
        std::vector<dd::mEdge> m;
        std::vector<Answer>    known;
        Asker(P& q, int nn, unsigned set):
            p(q), n(nn), o(nn, set), known(NQ) {
            v.push_back(p.makeStateFromVector(cvec(o.v[0])));
            v.push_back(scaled(p, v[0], C{-1, 0}));
            v.push_back(scaled(p, v[0], C{0.6, 0.8}));
            v.push_back(p.makeStateFromVector(cvec(o.v[3])));
            v.push_back(scaled(p, v[3], C{0, 0.5}));
            v.push_back(p.makeZeroState(static_cast<dd::QubitCount>(n)));
            m.push_back(p.makeDDFromMatrix(cmat(o.m[0])));
            m.push_back(scaled(p, m[0], C{0, -1}));
            m.push_back(scaled(p, m[0], C{0.8, 0.6}));
            m.push_back(p.makeDDFromMatrix(cmat(o.m[3])));
            m.push_back(p.makeIdent(static_cast<dd::QubitCount>(n)));
            m.push_back(scaled(p, m[4], C{0.5, 0}));
            for (const auto& e: v) {
                p.incRef(e);
            }
            for (const auto& e: m) {
                p.incRef(e);
            }
        }
        static std::string name(unsigned q) {
            const auto pr = [&](const char* s, unsigned k, unsigned w) { return std::string(s) + "(" + std::to_string(k / w) + "," + std::to_string(k % w) + ")"; };
            if (q < 4 * NV * NV) {
                const char* N[] = {"add states", "inner product", "fidelity", "kronecker of states"};
                return pr(N[q / (NV * NV)], q % (NV * NV), NV);
            }
            q -= 4 * NV * NV;
            if (q < 3 * NM * NM) {
                const char* N[] = {"add matrices", "multiply matrices", "kronecker of matrices"};
                return pr(N[q / (NM * NM)], q % (NM * NM), NM);
            }
            q -= 3 * NM * NM;
            if (q < NM * NV) {
                return pr("apply", q, NV);
            }
            q -= NM * NV;
            if (q < 6 * NM) {
                const char* N[] = {"transpose ", "adjoint ", "trace ", "partial trace ", "expectation of state 0 ", "expectation of state 3 "};
                return N[q / NM] + std::to_string(q % NM);
            }
            return "builder " + std::to_string(q - 6 * NM);
        }
        Answer compute(unsigned q) {
            Answer     a;
            const auto sv = [&](const dd::vEdge& e, const V& x, int k) { a.kind = 1, a.v = e, a.dv = x, a.n = k; };
            const auto sm = [&](const dd::mEdge& e, const M& x, int k) { a.kind = 2, a.m = e, a.dm = x, a.n = k; };
            const auto sc = [&](const C& got, const C& want, const char* what) {
                a.kind = 3, a.c = got;
                expect(got, want, what);
            };
            if (q < 4 * NV * NV) {
                const auto i = q % (NV * NV) / NV;
                const auto j = q % NV;
                switch (q / (NV * NV)) {
                    case 0: sv(p.add(v[i], v[j]), ref::add(o.v[i], o.v[j]), n); break;
                    case 1: sc(cv(p.innerProduct(v[i], v[j])), ref::inner(o.v[i], o.v[j]), "inner product"); break;
                    case 2: sc(C{p.fidelity(v[i], v[j]), 0}, C{std::norm(ref::inner(o.v[i], o.v[j])), 0}, "fidelity"); break;
                    default: sv(p.kronecker(v[i], v[j]), ref::kron(o.v[i], o.v[j]), 2 * n); break;
                }
                return a;
            }
            q -= 4 * NV * NV;
            if (q < 3 * NM * NM) {
                const auto i = q % (NM * NM) / NM;
                const auto j = q % NM;
                switch (q / (NM * NM)) {
                    case 0: sm(p.add(m[i], m[j]), ref::add(o.m[i], o.m[j]), n); break;
                    case 1: sm(p.multiply(m[i], m[j]), ref::mul(o.m[i], o.m[j]), n); break;
                    default: sm(p.kronecker(m[i], m[j]), ref::kron(o.m[i], o.m[j]), 2 * n); break;
                }
                return a;
            }
            q -= 3 * NM * NM;
            if (q < NM * NV) {
                sv(p.multiply(m[q / NV], v[q % NV]), ref::mul(o.m[q / NV], o.v[q % NV]), n);
                return a;
            }
            q -= NM * NV;
            if (q < 6 * NM) {
                const auto i = q % NM;
                switch (q / NM) {
                    case 0: sm(p.transpose(m[i]), ref::transpose(o.m[i]), n); break;
                    case 1: sm(p.conjugateTranspose(m[i]), ref::adjoint(o.m[i]), n); break;
                    case 2: sc(cv(p.trace(m[i])), ref::trace(o.m[i]), "trace"); break;
                    case 3: {
                        std::vector<bool> el(static_cast<std::size_t>(n));
                        el[0] = true;
                        if (n == 1) {
                            sc(cv(p.trace(m[i])), ref::trace(o.m[i]), "trace");
                        } else {
                            sm(p.partialTrace(m[i], el), ref::ptrace(o.m[i], n, el), n - 1);
                        }
                        break;
                    }
                    default: {
                        const auto k = q / NM == 4 ? 0 : 3;
                        const M    h = ref::add(o.m[i], ref::adjoint(o.m[i]));
                        const auto e = p.add(m[i], p.conjugateTranspose(m[i]));
                        if (e.isTerminal()) {
                            a.kind = 3;
                            break;
                        }
                        p.incRef(e);
                        sc(C{p.expectationValue(e, v[k]), 0}, ref::inner(o.v[k], ref::mul(h, o.v[k])), "expectation value");
                        p.decRef(e);
                        break;
                    }
                }
                return a;
            }
            q -= 6 * NM;
            const auto nq = static_cast<dd::QubitCount>(n);
            const C    x[] = {0, 1, 1, 0};
            const C    h[] = {S2, S2, S2, -S2};
            const C    t[] = {1, 0, 0, C{S2, S2}};
            const int  b  = n - 1;
            switch (q) {
                case 0: sm(p.makeGateDD(dd::Xmat, nq, 0), ref::gate(n, x, 0), n); break;
                case 1: sm(p.makeGateDD(dd::Hmat, nq, static_cast<dd::Qubit>(b)), ref::gate(n, h, b), n); break;
                case 2: sm(p.makeGateDD(dd::Tmat, nq, 0), ref::gate(n, t, 0), n); break;
                case 3: sm(p.makeIdent(nq), ref::ident(1ULL << n), n); break;
                case 4: sm(p.makeIdent(1), ref::ident(2), 1); break;
                case 5: sm(p.makeIdent(static_cast<dd::QubitCount>(n + 1)), ref::ident(2ULL << n), n + 1); break;
                case 6: sm(p.extend(m[0], 1), ref::kron(ref::ident(2), o.m[0]), n + 1); break;
                case 7: sm(p.extend(m[3], 0, 1), ref::kron(o.m[3], ref::ident(2)), n + 1); break;
                case 8: sv(p.makeZeroState(nq), vecPat(n, 0), n); break;
                case 9: sv(p.makeStateFromVector(cvec(o.v[3])), o.v[3], n); break;
                case 10: sm(p.makeDDFromMatrix(cmat(o.m[3])), o.m[3], n); break;
                case 11: sv(p.deleteEdge(v[3], 0, 0), [&] { V r = o.v[3]; for (std::size_t i = 0; i < r.size(); i += 2) { r[i] = 0; } return r; }(), n); break;
                case 12:
                    if (n > 1) {
                        sm(p.makeGateDD(dd::Xmat, nq, dd::Control{0}, 1), ref::gate(n, x, 1, {{0, true}}), n);
                    } else {
                        sm(p.makeIdent(2), ref::ident(4), 2);
                    }
                    break;
                default:
                    if (n > 1) {
                        sm(p.makeGateDD(dd::Xmat, nq, dd::Control{0, dd::Control::Type::neg}, 1), ref::gate(n, x, 1, {{0, false}}), n);
                    } else {
                        sm(p.makeIdent(1), ref::ident(2), 1);
                    }
                    break;
            }
            return a;
        }
        // the answer is right and, if it was obtained before, the very same
        void ask(unsigned q, const std::string& when) {
            MC_NOTE(name(q));
            auto       a = compute(q);
            auto&      k = known[q];
            const auto w = name(q) + " " + when;
            if (a.kind == 1) {
                expect(vec(a.v, a.n), a.dv, w);
            } else if (a.kind == 2) {
                expect(mat(a.m, a.n), a.dm, w);
            }
            if (k.kind == 0) {
                k = a;
                if (a.kind == 1) {
                    p.incRef(a.v);
                } else if (a.kind == 2) {
                    p.incRef(a.m);
                }
                return;
            }
            if (a.kind == 1 && a.v != k.v) {
                mc::fail(w + " gives another diagram than before: root " + ref::str(val(a.v.w)) + " then " + ref::str(val(k.v.w)));
            } else if (a.kind == 2 && a.m != k.m) {
                mc::fail(w + " gives another diagram than before: root " + ref::str(val(a.m.w)) + " then " + ref::str(val(k.m.w)));
            } else if (a.kind == 3 && std::abs(a.c - k.c) > 1e-11) {
                mc::fail(w + " gives another number than before");
            }
        }
        void between(unsigned c) {
            switch (c) {
                case 1: p.clearComputeTables(); break;
                case 2: p.garbageCollect(true); break;
                case 3:
                    p.vectorAdd.clear();
                    p.matrixMatrixMultiplication.clear();
                    p.matrixTranspose.clear();
                    break;
                default: break;
            }
        }
    };
    // every ordered pair of queries: first, second, first again
    void pairs() {
        const unsigned cfg = mc::choose(3, "cfg");
        const unsigned set = mc::choose(mc::thorough() ? 3 : 2, "operands");
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 3 : 2, "n-1");
        const unsigned q1  = mc::choose(NQ, "first");
        with3(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto     p = std::make_unique<P>(2 * n + 1);
            Asker<P> a(*p, static_cast<int>(n), set);
            a.ask(q1, "at first");
            for (unsigned q2 = 0; q2 < NQ; ++q2) {
                const unsigned c = (q1 + q2) % 4;
                a.ask(q2, "after " + Asker<P>::name(q1));
                a.between(mc::thorough() ? 0 : c);
                a.ask(q1, "after " + Asker<P>::name(q2));
                if (mc::thorough()) {
                    a.between(c);
                    a.ask(q2, "again");
                    a.ask(q1, "again");
                }
                mc::alive();
            }
            mc::state(mc::mix(mc::mix(cfg, set), q1));
        });
    }
    // all sequences of a few queries, with the caches cleared or not in between
    void sequences() {
        static const unsigned A[] = {
                0 * NV * NV + 0 * NV + 3, 0 * NV * NV + 1 * NV + 3, 0 * NV * NV + 3 * NV + 0, 1 * NV * NV + 0 * NV + 3, 1 * NV * NV + 3 * NV + 0, 3 * NV * NV + 0 * NV + 3,
                4 * NV * NV + 0 * NM + 3, 4 * NV * NV + NM * NM + 0 * NM + 3, 4 * NV * NV + NM * NM + 3 * NM + 0, 4 * NV * NV + 2 * NM * NM + 3, 4 * NV * NV + 3 * NM * NM + 0, 4 * NV * NV + 3 * NM * NM + 3,
                4 * NV * NV + 3 * NM * NM + NM * NV, 4 * NV * NV + 3 * NM * NM + NM * NV + NM, 4 * NV * NV + 3 * NM * NM + NM * NV + NM + 2, 4 * NV * NV + 3 * NM * NM + NM * NV + 4 * NM + 3};
        const unsigned cfg = mc::choose(3, "cfg");
        const unsigned len = mc::thorough() ? 4 : 3;
        with3(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto     p = std::make_unique<P>(5);
            Asker<P> a(*p, 2, 1);
            for (unsigned d = 0; d < len; ++d) {
                a.ask(A[mc::choose(16, "query")], "at step " + std::to_string(d));
                if (d + 1 < len) {
                    a.between(mc::choose(3, "between"));
                }
            }
            for (const auto q: A) {
                a.ask(q, "at the end");
            }
        });
    }
    // arbitrary histories first
    void histories() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned len = mc::thorough() ? 3 : 2;
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto       p = std::make_unique<P>(5);
            Machine<P> m(*p, 2);
            m.start();
            Asker<P> a(*p, 2, 1);
            unsigned o = 0;
            for (unsigned d = 0; d < len; ++d) {
                o = mc::choose(OpCount, "op");
                if (!m.step(o)) {
                    mc::prune();
                }
            }
            for (unsigned q = o % 3; q < NQ; q += 3) {
                a.ask(q, "after a history");
            }
        });
    }
    // one cached operation, all pairs of operand pairs in caches of one and two slots; all operands and results live
    void collisions() {
        const unsigned cfg = mc::choose(3, "cfg");
        const unsigned o   = mc::choose(8, "op");
        const unsigned a   = mc::choose(25, "a");
        const unsigned b   = mc::choose(25, "b");
        with3(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2);
            std::vector<V>         xv;
            std::vector<M>         xm;
            std::vector<dd::vEdge> v;
            std::vector<dd::mEdge> m;
            for (unsigned i = 0; i < 25; ++i) {
                xv.push_back(vecFrom(i, 1, L5));
                v.push_back(p->makeStateFromVector(cvec(xv.back())));
                p->incRef(v.back());
                xm.push_back(matFrom(i * 23 % 625, L5));
                m.push_back(p->makeDDFromMatrix(cmat(xm.back())));
                p->incRef(m.back());
            }
            const auto run = [&](unsigned i, unsigned j, const char* when) {
                const std::string w = std::string(when) + " operation on " + std::to_string(i) + ", " + std::to_string(j);
                switch (o) {
                    case 0: expect(vec(p->add(v[i], v[j]), 1), ref::add(xv[i], xv[j]), w); break;
                    case 1:
                        if (!v[i].isTerminal() && !v[j].isTerminal()) {
                            expect(cv(p->innerProduct(v[i], v[j])), ref::inner(xv[i], xv[j]), w);
                        }
                        break;
                    case 2:
                        if (!v[i].isTerminal() && !v[j].isTerminal()) {
                            expect(vec(p->kronecker(v[i], v[j]), 2), ref::kron(xv[i], xv[j]), w);
                        }
                        break;
                    case 3: expect(vec(p->multiply(m[i], v[j]), 1), ref::mul(xm[i], xv[j]), w); break;
                    case 4: expect(mat(p->add(m[i], m[j]), 1), ref::add(xm[i], xm[j]), w); break;
                    case 5: expect(mat(p->multiply(m[i], m[j]), 1), ref::mul(xm[i], xm[j]), w); break;
                    case 6:
                        expect(mat(p->transpose(m[i]), 1), ref::transpose(xm[i]), w);
                        expect(mat(p->conjugateTranspose(m[j]), 1), ref::adjoint(xm[j]), w);
                        break;
                    default:
                        if (!m[i].isTerminal() && !m[j].isTerminal()) {
                            expect(mat(p->kronecker(m[i], m[j]), 2), ref::kron(xm[i], xm[j]), w);
                        }
                        break;
                }
            };
            for (unsigned k = 0; k < 625; ++k) {
                run(a, b, "first");
                run(k / 25, k % 25, "second");
            }
            mc::state(mc::mix(mc::mix(o, a), b));
        });
    }
    // operands that nothing refers to are collected and built again in recycled nodes: a remembered result must not
    // be taken for the result of whatever lives at the same place now
    void recycled() {
        const unsigned cfg  = mc::choose(3, "cfg");
        const unsigned n    = 1 + mc::choose(2, "n-1");
        const unsigned o    = mc::choose(12, "op");
        const unsigned keep = mc::choose(4, "kept: bit 0 numbers; states or matrices");
        const unsigned kind = mc::choose(keep < 2 ? 1 : 2, "kept operands");
        const unsigned a    = mc::choose(36, "operands");
        with3(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(2 * n);
            const auto nq = static_cast<int>(n);
            const C    X[] = {0, 1, 1, 0};
            const C    S[] = {1, 0, 0, C{0, 1}};
            const C    H[] = {S2, S2, S2, -S2};
            const C    R[] = {0.6, -0.8, 0.8, 0.6};
            const C    Q[] = {0, 0, C{0, 1}, 0};
            std::vector<V> xv{{1, 0}, {0, 1}, {S2, S2}, {S2, -S2}, {0.6, C{0, 0.8}}, {0, C{0, -1}}};
            std::vector<M> xm{ref::gate(1, X, 0), ref::gate(1, S, 0), ref::gate(1, H, 0), ref::gate(1, R, 0), ref::gate(1, Q, 0), ref::ident(2)};
            if (n == 2) {
                const auto yv = xv;
                const auto ym = xm;
                for (unsigned i = 0; i < 6; ++i) {
                    xv[i] = i < 5 ? ref::kron(yv[i], yv[(i * 2 + 1) % 6]) : V{S2, 0, 0, C{0, S2}};
                    xm[i] = ref::kron(ym[i], ym[(i * 2 + 1) % 6]);
                }
            }
            std::vector<dd::vEdge> held;
            std::vector<dd::mEdge> heldM;
            const bool             kv = keep >= 2 && kind == 0;
            const bool             km = keep >= 2 && kind == 1;
            const auto             bv = [&](unsigned i) { return p->makeStateFromVector(cvec(xv[i])); };
            const auto             bm = [&](unsigned i) { return p->makeDDFromMatrix(cmat(xm[i])); };
            for (unsigned i = 0; i < 6; ++i) {
                if (kv) {
                    p->incRef(bv(i));
                }
                if (km) {
                    p->incRef(bm(i));
                }
            }
            if (keep % 2 == 1) { // numbers stay, so that only nodes are collected
                for (const double x: {0.6, 0.8, S2, 0.5, 0.48, 0.36, 0.64, S2 * 0.6, S2 * 0.8, 0.28, 0.96, 2 * S2, 1.2, 1.6}) {
                    const auto c = p->cn.lookup(x, 0.);
                    dd::ComplexNumbers::incRef(c);
                }
            }
            const auto run = [&](unsigned k, const char* when) {
                const unsigned    i = k / 6;
                const unsigned    j = k % 6;
                const std::string w = std::string(when) + " operation on " + std::to_string(i) + ", " + std::to_string(j);
                mc::op();
                switch (o) {
                    case 0: expect(vec(p->add(bv(i), bv(j)), nq), ref::add(xv[i], xv[j]), w + " (sum of states)"); break;
                    case 1: {
                        const auto l = bv(i);
                        expect(cv(p->innerProduct(l, bv(j))), ref::inner(xv[i], xv[j]), w + " (inner product)");
                        break;
                    }
                    case 2: {
                        const auto l = bv(i);
                        expect(C{p->fidelity(l, bv(j)), 0}, C{std::norm(ref::inner(xv[i], xv[j])), 0}, w + " (fidelity)");
                        break;
                    }
                    case 3: {
                        const auto l = bv(i);
                        expect(vec(p->kronecker(l, bv(j)), 2 * nq), ref::kron(xv[i], xv[j]), w + " (Kronecker product of states)");
                        break;
                    }
                    case 4: {
                        const auto l = bm(i);
                        expect(vec(p->multiply(l, bv(j)), nq), ref::mul(xm[i], xv[j]), w + " (matrix-vector product)");
                        break;
                    }
                    case 5: {
                        const auto l = bm(i);
                        expect(mat(p->add(l, bm(j)), nq), ref::add(xm[i], xm[j]), w + " (sum of matrices)");
                        break;
                    }
                    case 6: {
                        const auto l = bm(i);
                        expect(mat(p->multiply(l, bm(j)), nq), ref::mul(xm[i], xm[j]), w + " (matrix product)");
                        break;
                    }
                    case 7: {
                        const auto l = bm(i);
                        expect(mat(p->kronecker(l, bm(j)), 2 * nq), ref::kron(xm[i], xm[j]), w + " (Kronecker product)");
                        break;
                    }
                    case 8: {
                        const auto l = bm(i);
                        expect(mat(p->transpose(bm(j)), nq), ref::transpose(xm[j]), w + " (transpose)");
                        expect(mat(p->transpose(l), nq), ref::transpose(xm[i]), w + " (transpose)");
                        break;
                    }
                    case 9: {
                        const auto l = bm(i);
                        expect(mat(p->conjugateTranspose(bm(j)), nq), ref::adjoint(xm[j]), w + " (adjoint)");
                        expect(mat(p->conjugateTranspose(l), nq), ref::adjoint(xm[i]), w + " (adjoint)");
                        break;
                    }
                    case 10: {
                        const auto l = bm(i);
                        const auto r = p->multiply(p->multiply(l, bm(j)), p->transpose(p->add(l, bm(j))));
                        expect(mat(r, nq), ref::mul(ref::mul(xm[i], xm[j]), ref::transpose(ref::add(xm[i], xm[j]))), w + " (matrix expression)");
                        break;
                    }
                    default: {
                        auto d = p->makeZeroDensityOperator(static_cast<dd::QubitCount>(n));
                        p->incRef(d);
                        p->applyOperationToDensity(d, bm(i % 4), true);
                        p->applyOperationToDensity(d, bm(j % 4), true);
                        M z(1ULL << n);
                        z(0, 0)      = 1;
                        const auto u = ref::mul(xm[j % 4], xm[i % 4]);
                        const auto y = ref::mul(ref::mul(u, z), ref::adjoint(u));
                        const auto m = p->getDensityMatrix(d);
                        M          got(1ULL << n);
                        for (std::size_t r = 0; r < (1ULL << n); ++r) {
                            for (std::size_t c = 0; c < (1ULL << n); ++c) {
                                got(r, c) = C{m[r][c].real(), m[r][c].imag()};
                            }
                        }
                        expect(got, y, w + " (density matrix)");
                        dd::dEdge::alignDensityEdge(d);
                        p->decRef(d);
                        break;
                    }
                }
            };
            for (unsigned k = 0; k < 36; ++k) {
                run(a, "first");
                p->garbageCollect(true);
                run(k, "second");
                if (k % 2 == 0) {
                    p->garbageCollect(true);
                }
            }
            mc::state(mc::mix(mc::mix(o, a), mc::mix(n, keep * 2 + kind)));
        });
    }
    // operands and results stay, but the numbers in the operands' root weights are collected and stored for others
    void recycledNumbers() {
        const unsigned cfg  = mc::choose(3, "cfg");
        const unsigned n    = 1 + mc::choose(2, "n-1");
        const unsigned o    = mc::choose(11, "op");
        const unsigned pair = mc::choose(16, "operands");
        const unsigned a    = mc::choose(36, "weights");
        static const C W[]  = {{0.31, 0}, {0.43, 0}, {0.57, 0}, {0.37, 0.71}, {0.61, 0.29}, {0, -0.47}};
        with3(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(2 * n);
            const auto nq = static_cast<int>(n);
            const unsigned vp[] = {2, 4, 5, 7};
            const unsigned mp[] = {2, 6, 8, 9};
            const V  xv[2] = {vecPat(nq, vp[pair / 4]), vecPat(nq, vp[pair % 4])};
            const C  Y[]   = {0, 1, C{0.6, 0.8}, 0}; // transposing it gives another root weight
            const auto xmat = [&](unsigned k) { return k == 0 ? ref::gate(nq, Y, nq - 1) : matPat(nq, mp[k]); };
            const M  xm[2] = {xmat(pair / 4), xmat(pair % 4)};
            dd::vEdge bv[2];
            dd::mEdge bm[2];
            V         yv[2];
            M         ym[2];
            for (unsigned k = 0; k < 2; ++k) {
                bv[k] = p->makeStateFromVector(cvec(xv[k]));
                bm[k] = p->makeDDFromMatrix(cmat(xm[k]));
                if (bv[k].isTerminal() || bm[k].isTerminal()) {
                    mc::prune();
                }
                yv[k]   = ref::scale(xv[k], C{1, 0} / val(bv[k].w));
                ym[k]   = ref::scale(xm[k], C{1, 0} / val(bm[k].w));
                bv[k].w = dd::Complex::one;
                bm[k].w = dd::Complex::one;
                p->incRef(bv[k]);
                p->incRef(bm[k]);
            }
            const auto ev = [&](unsigned k, unsigned w) { auto e = bv[k]; e.w = p->cn.lookup(W[w].real(), W[w].imag()); return e; };
            const auto em = [&](unsigned k, unsigned w) { auto e = bm[k]; e.w = p->cn.lookup(W[w].real(), W[w].imag()); return e; };
            bool       holding = true;
            const auto rv = [&](dd::vEdge e, const V& x, int k, const std::string& w) {
                expect(vec(e, k), x, w);
                if (holding) {
                    e.w = dd::Complex::one;
                    p->incRef(e);
                }
            };
            const auto rm = [&](dd::mEdge e, const M& x, int k, const std::string& w) {
                expect(mat(e, k), x, w);
                if (holding) {
                    e.w = dd::Complex::one;
                    p->incRef(e);
                }
            };
            const auto run = [&](unsigned k, const char* when, bool other = false) {
                const unsigned    i = k / 6;
                const unsigned    j = k % 6;
                const std::string w = std::string(when) + " operation with weights " + ref::str(W[i]) + ", " + ref::str(W[j]);
                const auto        u = [&](unsigned s) { return ref::scale(yv[s], W[s == 0 ? i : j]); };
                const auto        g = [&](unsigned s) { return ref::scale(ym[s], W[s == 0 ? i : j]); };
                if (other) { // numbers get their places in the order they are stored
                    p->cn.lookup(W[j].real(), W[j].imag());
                }
                mc::op();
                switch (o) {
                    case 0: rv(p->add(ev(0, i), ev(1, j)), ref::add(u(0), u(1)), nq, w + " (sum of states)"); break;
                    case 1: expect(cv(p->innerProduct(ev(0, i), ev(1, j))), ref::inner(u(0), u(1)), w + " (inner product)"); break;
                    case 2: expect(C{p->fidelity(ev(0, i), ev(1, j)), 0}, C{std::norm(ref::inner(u(0), u(1))), 0}, w + " (fidelity)"); break;
                    case 3: rv(p->kronecker(ev(0, i), ev(1, j)), ref::kron(u(0), u(1)), 2 * nq, w + " (Kronecker product of states)"); break;
                    case 4: rv(p->multiply(em(0, i), ev(1, j)), ref::mul(g(0), u(1)), nq, w + " (matrix-vector product)"); break;
                    case 5: rm(p->add(em(0, i), em(1, j)), ref::add(g(0), g(1)), nq, w + " (sum of matrices)"); break;
                    case 6: rm(p->multiply(em(0, i), em(1, j)), ref::mul(g(0), g(1)), nq, w + " (matrix product)"); break;
                    case 7: rm(p->kronecker(em(0, i), em(1, j)), ref::kron(g(0), g(1)), 2 * nq, w + " (Kronecker product)"); break;
                    case 8: rm(p->transpose(em(0, i)), ref::transpose(g(0)), nq, w + " (transpose)"); break;
                    case 9: rm(p->conjugateTranspose(em(0, i)), ref::adjoint(g(0)), nq, w + " (adjoint)"); break;
                    default: expect(cv(p->trace(em(0, i))), ref::trace(g(0)), w + " (trace)"); break;
                }
            };
            for (unsigned k = 0; k < 36; ++k) { // every node that is needed exists and is kept
                run(k, "first");
            }
            p->garbageCollect(true);
            holding = false;
            for (unsigned k = 0; k < 36; ++k) {
                run(a, "first");
                p->garbageCollect(true);
                run(k, "second", k % 2 == 0);
                p->garbageCollect(true);
                run(a, "third", k % 3 == 0);
                p->garbageCollect(true);
                run(k, "fourth", k % 2 != 0);
                if (k % 5 < 2) {
                    p->garbageCollect(true);
                }
            }
            mc::state(mc::mix(mc::mix(o, a), mc::mix(n, pair)));
        });
    }
    // density evolution: the same step in both representations, repeated and interleaved
    void density() {
        const unsigned cfg = mc::choose(3, "cfg");
        const unsigned len = mc::thorough() ? 5 : 4;
        with3(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto      p = std::make_unique<P>(2);
            const C   g[4][4] = {{S2, S2, S2, -S2}, {1, 0, 0, C{0.6, 0.8}}, {0, 1, 1, 0}, {0, C{0, -1}, C{0, 1}, 0}};
            struct Reg {
                dd::dEdge e;
                M         x;
                bool      g;
            };
            std::vector<Reg> r;
            for (int k = 0; k < 2; ++k) {
                auto d = p->makeZeroDensityOperator(2);
                p->incRef(d);
                M x(4);
                x(0, 0) = 1;
                r.push_back({d, x, k == 1});
            }
            for (unsigned d = 0; d < len; ++d) {
                const unsigned k = mc::choose(8, "step");
                const unsigned u = k % 4;
                auto&          s = r[k / 4];
                const auto     q = static_cast<int>(d % 2);
                p->applyOperationToDensity(s.e, p->makeGateDD(gm(g[u]), 2, static_cast<dd::Qubit>(q)), s.g);
                const auto U = ref::gate(2, g[u], q);
                s.x          = ref::mul(ref::mul(U, s.x), ref::adjoint(U));
                for (auto& y: r) {
                    auto       e = y.e;
                    const auto m = p->getDensityMatrix(e);
                    M          got(4);
                    for (std::size_t i = 0; i < 4; ++i) {
                        for (std::size_t j = 0; j < 4; ++j) {
                            got(i, j) = C{m[i][j].real(), m[i][j].imag()};
                        }
                    }
                    expect(got, y.x, y.g ? "density matrix" : "density matrix in plain representation");
                }
            }
        });
    }
    // the same circuit with all cache sizes gives the same amplitudes
    void circuits() {
        const unsigned n    = 3;
        const unsigned len  = mc::thorough() ? 5 : 4;
        std::vector<unsigned> gs;
        for (unsigned d = 0; d < len; ++d) {
            gs.push_back(mc::choose(8, "gate"));
        }
        V first;
        for (unsigned cfg = 0; cfg < 3; ++cfg) {
            with3(cfg, [&](auto t) {
                using P = Pkg<typename decltype(t)::type>;
                auto       p = std::make_unique<P>(n);
                auto       e = p->makeStateFromVector(cvec(vecPat(3, 5)));
                p->incRef(e);
                for (int rep = 0; rep < 2; ++rep) {
                    for (const auto k: gs) {
                        const auto q = static_cast<dd::Qubit>(k % 3);
                        const auto c = static_cast<dd::Qubit>((k + 1) % 3);
                        const auto g = k < 3 ? p->makeGateDD(dd::Hmat, n, q) : k < 6 ? p->makeGateDD(dd::Xmat, n, dd::Control{c}, q) : k == 6 ? p->makeGateDD(dd::Tmat, n, q) : p->makeSWAPDD(n, 0, 2);
                        const auto f = p->multiply(g, e);
                        p->incRef(f);
                        p->decRef(e);
                        e = f;
                    }
                }
                const auto v = vec(e, static_cast<int>(n));
                if (cfg == 0) {
                    first = v;
                    mc::state(ref::hash(v));
                } else {
                    expect(v, first, "circuit with other cache sizes");
                }
            });
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C19", argc, argv,
                   {{"query-pairs", 4, false, pairs},
                    {"sequences", 4, false, sequences},
                    {"histories", 3, false, histories},
                    {"collisions", 4, false, collisions},
                    {"recycled", 4, false, recycled},
                    {"recycled-numbers", 4, false, recycledNumbers},
                    {"density", 3, false, density},
                    {"circuits", 3, false, circuits}},
                   {"all ordered pairs of 338 queries (every binary operation on all pairs of six states / six matrices some of which differ only in the root weight, unary operations, builders) with cache clearing or collection in between, on 1 and 2 (3) qubits; all sequences of 3 (4) out of 16 queries with every placement of clearing and collection; queries after all histories of 2 (3) operations; eight operations on all pairs of 625 operand pairs; twelve operations on all ordered pairs of 36 operand pairs that are collected and built again in between, with numbers, states, matrices or nothing kept; eleven operations on all ordered pairs of 36 pairs of root weights that are collected in between while all nodes are kept; all density evolutions of 4 (5) steps in two registers; all circuits of 4 (5) gates; each with caches of 1, 2 and many slots",
                    {"cache slots are chosen by the library's own hash functions"}});
}
