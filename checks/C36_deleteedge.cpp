// C36: deleting an edge zeroes exactly that branch.
#include "machine.hpp"
using namespace ddx;
namespace {
    V without(const V& v, int q, unsigned i) {
        V r = v;
        for (std::size_t k = 0; k < v.size(); ++k) {
            if (((k >> q) & 1U) == i) {
                r[k] = 0;
            }
        }
        return r;
    }
    M without(const M& m, int q, unsigned i) {
        M r = m;
        for (std::size_t a = 0; a < m.d; ++a) {
            for (std::size_t b = 0; b < m.d; ++b) {
                if (((a >> q) & 1U) * 2 + ((b >> q) & 1U) == i) {
                    r(a, b) = 0;
                }
            }
        }
        return r;
    }
    bool zero(const V& v) {
        return std::all_of(v.begin(), v.end(), [](const C& c) { return c == C{0, 0}; });
    }
    V  dense(const dd::vEdge& e, int n, int base) { return vec(e, n, base); }
    M  dense(const dd::mEdge& e, int n, int base) { return mat(e, n, base); }
    const V& flat(const V& v) { return v; }
    const V& flat(const M& m) { return m.a; }
    template<class P>
    dd::vEdge build(P& p, const V& v) { return p.makeStateFromVector(cvec(v)); }
    template<class P>
    dd::mEdge build(P& p, const M& m) { return p.makeDDFromMatrix(cmat(m)); }
    template<class D>
    std::string name(const D& d, int n) { return n <= 2 ? ref::str(d) : std::string("a diagram on ") + std::to_string(n) + " qubits"; }
    // every qubit and index; `same`: the result is the very diagram of the remaining entries; depth: further deletions from the result
    template<class P, class E, class D>
    void ask(P& p, const E& e, const D& a, int n, bool same, unsigned depth, int base = 0) {
        constexpr unsigned K = std::is_same_v<E, dd::vEdge> ? 2 : 4;
        for (int q = 0; q < n; ++q) {
            for (unsigned i = 0; i < K; ++i) {
                const auto w = without(a, q, i);
                const auto r = p.deleteEdge(e, static_cast<dd::Qubit>(q + base), i);
                const auto what = [&] { return "deleting edge " + std::to_string(i) + " of qubit " + std::to_string(q) + " in " + name(a, n); };
                const auto g = dense(r, n, base);
                mc::op();
                mc::state(ref::hash(w));
                if (!ref::close(g, w, 1e-10)) {
                    mc::fail(what() + ": got " + ref::str(g) + ", expected " + ref::str(w));
                }
                if (zero(flat(w))) {
                    MC_CHECK(r == E::zero, what() << ": nothing is left but the result is not the zero diagram");
                } else if (same && base == 0) {
                    MC_CHECK(r == build(p, w), what() << ": the result is not the diagram of the remaining entries");
                }
                MC_CHECK(p.deleteEdge(r, static_cast<dd::Qubit>(q + base), i) == r, what() << " twice changes the diagram again");
                if (depth > 0) {
                    ask(p, r, w, n, same, depth - 1, base);
                }
            }
        }
        const auto again = dense(e, n, base);
        MC_CHECK(ref::close(again, a, 1e-10), "the operand changed from " << name(a, n) << " to " << name(again, n));
        // qubits the diagram does not have
        if (n + base < 127) {
            MC_CHECK(p.deleteEdge(e, static_cast<dd::Qubit>(n + base), 0) == e && p.deleteEdge(e, static_cast<dd::Qubit>(127), 1) == e, "deleting an edge of a qubit above " << name(a, n) << " changes it");
        }
        if (base > 0) {
            MC_CHECK(p.deleteEdge(e, static_cast<dd::Qubit>(base - 1), 0) == e, "deleting an edge of a qubit below " << name(a, n) << " changes it");
        }
    }
    void states() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned n   = 1 + mc::choose(3, "n-1");
        const unsigned hi  = mc::choose(27, "part");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n);
            warm(*p, ni, w);
            NoLeak<P>   nl(*p);
            const auto& A = n == 1 ? L9 : n == 2 ? L5 : L3;
            const auto  N = ipow(A.size(), 1ULL << n);
            unsigned    k = 0;
            for (std::size_t x = hi; x < N; x += 27) {
                const auto v = vecFrom(x, ni, A);
                if (zero(v)) {
                    MC_CHECK(p->deleteEdge(build(*p, v), 0, 0) == dd::vEdge::zero, "deleting an edge of the zero state");
                    continue;
                }
                ask(*p, build(*p, v), v, ni, n > 1, n == 1 ? 1 : (n == 2 ? 2 : 1));
                if (++k % 64 == 0) {
                    p->garbageCollect(true);
                    mc::alive();
                }
            }
            nl.check("deleting edges");
        });
    }
    void matrices() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned n   = 1 + mc::choose(2, "n-1");
        const unsigned hi  = mc::choose(64, "part");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n);
            warm(*p, ni, w);
            NoLeak<P>         nl(*p);
            const std::size_t N = n == 1 ? 6561 : 4096;
            unsigned          k = 0;
            for (std::size_t x = hi; x < N; x += 64) {
                const auto m = n == 1 ? matFrom(x, L9) : mat4(x, 8);
                if (zero(m.a)) {
                    MC_CHECK(p->deleteEdge(build(*p, m), 0, 0) == dd::mEdge::zero, "deleting an edge of the zero matrix");
                    continue;
                }
                ask(*p, build(*p, m), m, ni, n > 1, n == 1 || x % 16 == 0 ? 1 : 0);
                if (++k % 64 == 0) {
                    p->garbageCollect(true);
                    mc::alive();
                }
            }
            nl.check("deleting edges");
        });
    }
    // edges of weight zero lead to the terminal and no node has only such edges
    template<class Table>
    void structure(const Table& t) {
        for (const auto& tab: t.getTables()) {
            for (const auto* q: tab) {
                for (; q != nullptr; q = q->next) {
                    bool some = false;
                    for (const auto& e: q->e) {
                        const bool none = val(e.w) == C{0, 0};
                        some            = some || !none;
                        MC_CHECK(!none || e.isTerminal(), "a stored node has an edge of weight zero to another node");
                    }
                    MC_CHECK(some, "a stored node has only edges of weight zero");
                }
            }
        }
    }
    // entries of very different sizes and phases close to one: what is left may vanish
    void tiny() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned mx  = mc::choose(2, "matrices");
        const unsigned n   = 2 + mc::choose(2, "n-2");
        const unsigned hi  = mc::choose(25, "part");
        static const std::vector<C> A{{0, 0}, {1, 0}, {1e-7, 0}, {std::cos(1e-7), std::sin(1e-7)}, {0, 3e-4}};
        static const std::vector<C> A3{{0, 0}, {1, 0}, {0, 1e-7}};
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n) - static_cast<int>(mx);
            auto       p  = std::make_unique<P>(n);
            const auto one = [&](const auto& e, const auto& a) {
                using E              = std::decay_t<decltype(e)>;
                constexpr unsigned K = std::is_same_v<E, dd::vEdge> ? 2 : 4;
                for (int q = 0; q < ni; ++q) {
                    for (unsigned i = 0; i < K; ++i) {
                        const auto r = p->deleteEdge(e, static_cast<dd::Qubit>(q), i);
                        const auto w = without(a, q, i);
                        mc::op();
                        mc::state(ref::hash(w));
                        const auto g = dense(r, ni, 0);
                        MC_CHECK(ref::close(g, w, mx == 0 ? 1e-11 : 2e-9), "deleting edge " << i << " of qubit " << q << " in " << ref::str(a) << ": got " << ref::str(g));
                        MC_CHECK(val(r.w) != C(0, 0) || r == E::zero, "deleting edge " << i << " of qubit " << q << " in " << ref::str(a) << ": a zero result is not the zero diagram");
                    }
                }
            };
            // products: entries smaller than any single weight
            for (unsigned x = hi; x < 625; x += 25) {
                if (mx == 0) {
                    const auto a = vecFrom(x % 25, 1, A);
                    const auto b = vecFrom(x / 25, 1, A);
                    if (zero(a) || zero(b)) {
                        continue;
                    }
                    auto e = p->kronecker(build(*p, a), build(*p, b));
                    auto v = ref::kron(a, b);
                    if (ni == 3) {
                        e = p->kronecker(build(*p, a), e);
                        v = ref::kron(a, v);
                    }
                    one(e, v);
                } else if (ni == 2) {
                    const auto a = m2(A[x % 5], A[x / 5 % 5], 0, A[x / 125]);
                    const auto b = m2(A[x / 25 % 5], 0, A[x % 5], 1);
                    if (!zero(a.a)) {
                        one(p->kronecker(build(*p, a), build(*p, b)), ref::kron(a, b));
                    }
                }
            }
            structure(p->vUniqueTable);
            structure(p->mUniqueTable);
            const auto& L = ni == 3 ? A3 : A;
            const auto  N = ipow(L.size(), mx == 1 ? 1ULL << (2 * ni > 3 ? 3 : 2) : 1ULL << ni);
            for (std::size_t x = hi; x < N; x += 25) {
                if (mx == 0) {
                    const auto v = vecFrom(x, ni, L);
                    if (!zero(v)) {
                        one(build(*p, v), v);
                    }
                } else if (ni == 1) {
                    const auto m = matFrom(x, L);
                    if (!zero(m.a)) {
                        one(build(*p, m), m);
                    }
                } else {
                    const auto m = blocks(matFrom(x % 625, L), matFrom(x / 625, L), ref::scale(matFrom(x / 625, L), C{1e-7, 0}), matFrom(x % 625, L));
                    if (!zero(m.a) && x % 11 == 0) {
                        one(build(*p, m), m);
                    }
                }
                if (x % 8 == hi % 8) {
                    mc::alive();
                    // (squared magnitudes below the tolerance count as equal when nodes are normalised, so only the structure is looked at)
                    structure(p->vUniqueTable);
                    structure(p->mUniqueTable);
                    p->garbageCollect(true);
                }
            }
        });
    }
    const C F[] = {{1, 0}, {-1, 0}, {0, 1}, {0.5, 0}, {3, -4}, {1e-4, 1e-5}, {2.5, 0}, {1, 1e-3}};
    void shapes() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 6 : 5, "n-1");
        const unsigned pa  = mc::choose(NMP, "pattern");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n + 1);
            warm(*p, std::min(ni, 4), w);
            NoLeak<P>      nl(*p);
            const auto     a  = matPat(ni, pa);
            const auto     v  = vecPat(ni, pa % NVP);
            const unsigned up = n <= 3 ? 1 : 0;
            const auto     e  = build(*p, a);
            const auto     s  = build(*p, v);
            p->incRef(e);
            p->incRef(s);
            const auto active  = p->mUniqueTable.getActiveNodeCount();
            const auto activeV = p->vUniqueTable.getActiveNodeCount();
            for (unsigned round = 0; round < 2; ++round) {
                for (unsigned f = 0; f < 8; ++f) {
                    // scaled copies of one node: the result must carry the weight of the diagram asked for
                    if (!zero(a.a)) {
                        ask(*p, scaled(*p, e, F[f]), ref::scale(a, F[f]), ni, false, f == 0 ? up : 0);
                    }
                    if (!zero(v)) {
                        ask(*p, scaled(*p, s, F[f]), ref::scale(v, F[f]), ni, false, f == 0 ? up : 0);
                    }
                    mc::alive();
                }
                // the results of deletions can be used like any other diagram
                for (unsigned i = 0; i < 4 && n <= 4; ++i) {
                    const int  q = static_cast<int>((i + pa) % n);
                    const auto r = p->deleteEdge(e, static_cast<dd::Qubit>(q), i);
                    const auto d = without(a, q, i);
                    const auto z = p->deleteEdge(s, static_cast<dd::Qubit>(q), i % 2);
                    const auto y = without(v, q, i % 2);
                    if (r.isTerminal() || z.isTerminal()) {
                        continue;
                    }
                    const auto sc = std::max(1., scaleOf(d.a) * scaleOf(y)) * 32;
                    expect(vec(p->multiply(r, z), ni), ref::mul(d, y), "product of results of deletions", 1e-10 * sc);
                    expect(mat(p->conjugateTranspose(r), ni), ref::adjoint(d), "adjoint of the result of a deletion", 1e-9);
                    expect(vec(p->add(z, s), ni), ref::add(y, v), "sum with the result of a deletion", 1e-9);
                }
                nl.check("deleting edges");
                p->garbageCollect(true);
                checkTables(*p, "after deleting edges");
                MC_CHECK(p->mUniqueTable.getActiveNodeCount() == active && p->vUniqueTable.getActiveNodeCount() == activeV, "deleting edges changed what is referenced");
                expect(mat(e, ni), a, "the operand");
                expect(vec(s, ni), v, "the operand");
            }
            p->decRef(e);
            p->decRef(s);
        });
    }
    // shared nodes below different weights, every arrangement
    void nested() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned hi  = mc::choose(64, "upper");
        static const std::vector<V> B{V(4), {1, 0, 0, 0}, {0, 0, 0, 1}, {S2, S2, 0, 0}, {0.5, 0.5, 0.5, 0.5}, {0.5, -0.5, C{0, 0.5}, C{0, -0.5}}, {1, 0, 0, C{0, 2}}, {0, 1, C{0, -0.5}, 0}};
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(4);
            NoLeak<P> nl(*p);
            for (unsigned lo = 0; lo < 64; ++lo) {
                V v;
                for (const unsigned k: {hi % 8, lo % 8, lo / 8, hi / 8}) {
                    const C c = F[k % 4];
                    for (const auto& x: B[k]) {
                        v.push_back(ref::cmul(c, x));
                    }
                }
                if (zero(v)) {
                    continue;
                }
                ask(*p, build(*p, v), v, 4, true, 1);
                if (lo % 16 == 15) {
                    p->garbageCollect(true);
                    mc::alive();
                }
            }
            nl.check("deleting edges");
        });
    }
    // matrices of three qubits: every outer arrangement of inner 4x4 blocks
    void nestedMatrices() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned hi  = mc::choose(49, "upper");
        static const std::vector<M> B = [] {
            std::vector<M> b{M(4), ref::ident(4)};
            b.push_back(blocks(m2(0, 1, 0, 0), m2(1, 0, 0, 1), m2(1, 0, 0, 1), m2(0, 0, 1, 0)));
            b.push_back(blocks(m2(1, C{0, 1}, C{0, -1}, 2), m2(0, 0, 0, 0), m2(0, 0, 0, 0), m2(0, C{0, 1}, C{0, -1}, 0)));
            b.push_back(ref::scale(b[2], C{0, 0.5}));
            b.push_back(blocks(m2(1, 2, 3, 4), m2(0, 1, 1, 0), m2(0, 1, 1, 0), m2(4, 3, 2, 1)));
            b.push_back(blocks(m2(0, 0, 0, 0), m2(0, 1, 0, 0), m2(0, 0, 0, 0), m2(0, 0, 0, 0)));
            return b;
        }();
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            NoLeak<P> nl(*p);
            for (unsigned lo = 0; lo < 49; ++lo) {
                const auto a = blocks(B[hi % 7], B[lo % 7], B[lo / 7], B[hi / 7]);
                if (zero(a.a)) {
                    continue;
                }
                ask(*p, build(*p, a), a, 3, true, lo % 7 == 3 ? 1 : 0);
                if (lo % 7 == 6) {
                    p->garbageCollect(true);
                    mc::alive();
                }
            }
            nl.check("deleting edges");
        });
    }
    // gates with every control assignment, also starting above qubit 0
    void gates() {
        const unsigned n    = 2 + mc::choose(mc::thorough() ? 4 : 3, "n-2");
        const unsigned tgt  = mc::choose(n, "target");
        const unsigned g    = mc::choose(6, "gate");
        const unsigned base = mc::choose(3, "start");
        const unsigned cfg  = mc::choose(2, "cfg");
        static const C G[6][4] = {{S2, S2, S2, -S2}, {0, 1, 1, 0}, {0, C{0, -1}, C{0, 1}, 0}, {1, 0, 0, C{0.6, 0.8}}, {0.8, -0.6, 0.6, 0.8}, {1, C{2, 1}, 3, C{0, 4}}};
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            const auto b  = static_cast<int>(base);
            auto       p  = std::make_unique<P>(n + base);
            for (std::size_t c = 0; c < pow3(ni - 1); ++c) {
                auto ctl = controlsFrom(c, ni, {static_cast<int>(tgt)});
                const auto m = ref::gate(ni, G[g], static_cast<int>(tgt), ctl);
                for (auto& k: ctl) {
                    k.q += b;
                }
                const auto e = p->makeGateDD(gm(G[g]), static_cast<dd::QubitCount>(n), ctls(ctl), static_cast<dd::Qubit>(tgt + base), base);
                ask(*p, e, m, ni, true, 0, b);
                mc::alive();
            }
        });
    }
    // deletions as part of operation histories
    void histories() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned n   = 1 + mc::choose(3, "qubits");
        const unsigned a   = mc::choose(OpCount, "first");
        const unsigned b   = mc::choose(OpCount, "second");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            P          p(n);
            Machine<P> m(p, ni);
            m.start();
            const auto del = [&](const char* what) {
                for (int k = 0; k < 2; ++k) {
                    if (m.hv[k] && !m.v[k].isTerminal()) {
                        for (int q = 0; q < ni; ++q) {
                            for (unsigned i = 0; i < 2; ++i) {
                                expect(vec(p.deleteEdge(m.v[k], static_cast<dd::Qubit>(q), i), ni), without(m.dv[k], q, i), std::string("deleting an edge of a state after ") + what);
                            }
                        }
                    }
                    if (m.hm[k] && !m.m[k].isTerminal()) {
                        for (int q = 0; q < ni; ++q) {
                            for (unsigned i = 0; i < 4; ++i) {
                                expect(mat(p.deleteEdge(m.m[k], static_cast<dd::Qubit>(q), i), ni), without(m.dm[k], q, i), std::string("deleting an edge of a matrix after ") + what);
                            }
                        }
                    }
                }
            };
            if (!m.step(a)) {
                mc::prune();
            }
            del(opName(a));
            if (!m.step(b)) {
                mc::prune();
            }
            del(opName(b));
            m.verify("deletions");
            p.garbageCollect(true);
            del("a collection");
            m.verify("deletions and a collection");
            m.release();
            p.garbageCollect(true);
            MC_CHECK(p.vUniqueTable.getNodeCount() == 0 && p.mUniqueTable.getNodeCount() == 0, "deleting edges leaves something referenced");
        });
    }
    // registers too large for dense matrices: entries along paths
    C amp(const dd::vEdge& r, const std::string& path) { // index = qubit
        C    w = val(r.w);
        auto e = r;
        while (!e.isTerminal()) {
            e = e.p->e[static_cast<std::size_t>(path[static_cast<std::size_t>(e.p->v)] - '0')];
            w = ref::cmul(w, val(e.w));
        }
        return w;
    }
    C amp(const dd::mEdge& r, const std::string& path) {
        C    w = val(r.w);
        auto e = r;
        while (!e.isTerminal()) {
            e = e.p->e[static_cast<std::size_t>(path[static_cast<std::size_t>(e.p->v)] - '0')];
            w = ref::cmul(w, val(e.w));
        }
        return w;
    }
    template<class P, class E>
    void wideAsk(P& p, const E& e, unsigned n, const std::string& what) {
        constexpr unsigned K = std::is_same_v<E, dd::vEdge> ? 2 : 4;
        for (unsigned q = 0; q < n; q += (n > 40 && q > 2 && q + 5 < n ? 3 : 1)) {
            mc::alive();
            for (unsigned i = 0; i < K; ++i) {
                const auto r = p.deleteEdge(e, static_cast<dd::Qubit>(q), i);
                mc::op();
                // entries that differ from the all-zero path in up to two places
                for (unsigned x = 0; x < n; x += (n > 40 ? 7 : 1)) {
                    for (unsigned d = 0; d < K * K; ++d) {
                        std::string path(n, '0');
                        path[x] = static_cast<char>('0' + d % K);
                        path[q] = static_cast<char>('0' + (x == q ? d % K : d / K));
                        const C was = amp(e, path);
                        const C now = amp(r, path);
                        const bool gone = static_cast<unsigned>(path[q] - '0') == i;
                        MC_CHECK(std::abs(now - (gone ? C{0, 0} : was)) <= 1e-10 * (std::abs(was) + 1e-30), "deleting edge " << i << " of qubit " << q << " in " << what << " on " << n << " qubits: entry " << ref::str(was) << " became " << ref::str(now));
                        mc::state(mc::mix(q * 1000 + x, d * 4 + i));
                    }
                }
            }
        }
    }
    void wide() {
        const unsigned sizes[] = {8, 31, 32, 33, 64, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned kind    = mc::choose(7, "diagram");
        const auto     q       = static_cast<dd::QubitCount>(n);
        auto           p       = std::make_unique<Pkg<Mid>>(n);
        using BS               = dd::BasisStates;
        switch (kind) {
            case 0: {
                std::vector<BS> b(n);
                for (unsigned k = 0; k < n; ++k) {
                    b[k] = static_cast<BS>(k % 6);
                    if (b[k] == BS::one) {
                        b[k] = BS::left;
                    }
                }
                wideAsk(*p, p->makeBasisState(q, b), n, "a product state");
                break;
            }
            case 1: { // two distant qubits entangled with all others
                dd::vEdge e = p->makeBasisState(q, std::vector<BS>(n, BS::zero));
                e           = p->multiply(p->makeGateDD(dd::RYmat(0.7), q, static_cast<dd::Qubit>(n - 1)), e);
                for (unsigned k = 0; k + 1 < n; ++k) {
                    e = p->multiply(p->makeGateDD(dd::RYmat(0.4), q, dd::Control{static_cast<dd::Qubit>(n - 1)}, static_cast<dd::Qubit>(k)), e);
                }
                wideAsk(*p, e, n, "an entangled state");
                break;
            }
            case 2: wideAsk(*p, p->makeZeroState(q), n, "the zero state"); break;
            case 3: wideAsk(*p, p->makeIdent(q), n, "the identity"); break;
            case 4: {
                dd::mEdge e = p->makeGateDD(dd::Hmat, q, static_cast<dd::Qubit>(n / 2));
                e           = p->multiply(p->makeGateDD(dd::RYmat(0.7), q, 0), e);
                e           = p->multiply(p->makeGateDD(dd::RYmat(0.9), q, static_cast<dd::Qubit>(n - 1)), e);
                wideAsk(*p, e, n, "a product of gates");
                break;
            }
            case 5: wideAsk(*p, p->makeGateDD(dd::RYmat(0.3), q, dd::Control{static_cast<dd::Qubit>(n - 1)}, 0), n, "a controlled gate"); break;
            default: {
                dd::Controls c;
                for (unsigned k = 1; k < n; ++k) {
                    c.insert(dd::Control{static_cast<dd::Qubit>(k), k % 2 == 0 ? dd::Control::Type::pos : dd::Control::Type::neg});
                }
                wideAsk(*p, p->makeGateDD(dd::Hmat, q, c, 0), n, "a gate controlled by all other qubits");
                break;
            }
        }
        // scalars
        MC_CHECK(p->deleteEdge(dd::vEdge::one, 0, 0) == dd::vEdge::one && p->deleteEdge(dd::mEdge::one, 0, 3) == dd::mEdge::one && p->deleteEdge(dd::vEdge::zero, 0, 0) == dd::vEdge::zero, "deleting an edge of a scalar");
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C36", argc, argv,
                   {{"states", 4, false, states},
                    {"matrices", 4, false, matrices},
                    {"nested-states", 2, false, nested},
                    {"nested-matrices", 2, false, nestedMatrices},
                    {"structured-and-scaled", 4, false, shapes},
                    {"controlled-gates", 5, false, gates},
                    {"different-sizes", 4, false, tiny},
                    {"histories", 4, false, histories},
                    {"wide-registers", 2, false, wide}},
                   {"all states of 1-3 qubits over 9, 5 and 3 letters and all 6561 2x2 and 4096 two-qubit block matrices in four package conditions, with further deletions from the results; all arrangements of 8 two-qubit states and 7 4x4 blocks; entries of sizes 1 and 1e-7 in all arrangements on up to three qubits; 14 states and 16 matrices up to 5 (6) qubits with 8 factors; 6 gates with every control assignment up to 4 (5) qubits starting at qubit 0-2; after all pairs of 45 operations; registers up to 128 qubits; every qubit and every edge index",
                    {"entries are taken from finite alphabets", "an edge index beyond the number of edges is not used"}});
}
