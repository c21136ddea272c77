// C01: equal states / matrices have one diagram, different ones never compare equal.
#include "ddx.hpp"
//
#include "dd/Export.hpp"

#include <unordered_map>
using namespace ddx;
namespace {
    template<class P>
    dd::vEdge load(P& p, const dd::vEdge& e, bool bin) {
        std::stringstream ss;
        p.incRef(e);
        dd::serialize(e, ss, bin);
        auto r = p.template deserialize<dd::vNode>(ss, bin);
        p.decRef(e);
        return r;
    }
    template<class P>
    dd::mEdge load(P& p, const dd::mEdge& e, bool bin) {
        std::stringstream ss;
        p.incRef(e);
        dd::serialize(e, ss, bin);
        auto r = p.template deserialize<dd::mNode>(ss, bin);
        p.decRef(e);
        return r;
    }
    constexpr unsigned     NVR  = 13;
    const char* const      VR[] = {"vector constructor", "sum of basis states, ascending", "sum of basis states, descending", "matrix times |0>", "X on every qubit of the reversed vector", "H applied twice", "CX applied twice", "v + u - u", "text round trip", "binary round trip", "scaled copy", "halves joined by kron and add", "identity times v"};
    template<class P>
    dd::vEdge vroute(P& p, const V& v, int n, unsigned r) {
        const auto nq = static_cast<dd::QubitCount>(n);
        const auto N  = v.size();
        auto       mk = [&](const V& x) { return p.makeStateFromVector(cvec(x)); };
        auto       basis = [&](std::size_t i) {
            std::vector<bool> b(n);
            for (int q = 0; q < n; ++q) {
                b[q] = ((i >> q) & 1U) != 0;
            }
            return p.makeBasisState(nq, b);
        };
        switch (r) {
            case 0: return mk(v);
            case 1:
            case 2: {
                auto e = dd::vEdge::zero;
                for (std::size_t k = 0; k < N; ++k) {
                    const auto i = r == 1 ? k : N - 1 - k;
                    e            = p.add(e, scaled(p, basis(i), v[i]));
                }
                return e;
            }
            case 3: {
                M m(N);
                for (std::size_t i = 0; i < N; ++i) {
                    m(i, 0) = v[i];
                    if (i > 0) {
                        m(i, i) += 1;
                    }
                }
                return p.multiply(p.makeDDFromMatrix(cmat(m)), p.makeZeroState(nq));
            }
            case 4: {
                V w(v.rbegin(), v.rend());
                auto e = mk(w);
                for (int q = 0; q < n; ++q) {
                    e = p.multiply(p.makeGateDD(dd::Xmat, nq, static_cast<dd::Qubit>(q)), e);
                }
                return e;
            }
            case 5: {
                auto e = mk(v);
                for (int q = 0; q < n; ++q) {
                    const auto g = p.makeGateDD(dd::Hmat, nq, static_cast<dd::Qubit>(n - 1 - q));
                    e            = p.multiply(g, p.multiply(g, e));
                }
                return e;
            }
            case 6: {
                auto e = mk(v);
                for (int q = 1; q < n; ++q) {
                    const auto g = p.makeGateDD(dd::Xmat, nq, dd::Control{0}, static_cast<dd::Qubit>(q));
                    e            = p.multiply(g, p.multiply(g, e));
                }
                return e;
            }
            case 7: {
                V u(N);
                for (std::size_t i = 0; i < N; ++i) {
                    u[i] = C{0.5 - static_cast<double>(i % 3), 0.25};
                }
                const auto eu = mk(u);
                return p.add(p.add(mk(v), eu), scaled(p, eu, C{-1, 0}));
            }
            case 8: return load(p, mk(v), false);
            case 9: return load(p, mk(v), true);
            case 10: return scaled(p, mk(ref::scale(v, C{0, 2})), C{0, -0.5});
            case 11: {
                if (n == 1) {
                    return p.add(scaled(p, basis(0), v[0]), scaled(p, basis(1), v[1]));
                }
                const V    lo(v.begin(), v.begin() + static_cast<long>(N / 2));
                const V    hi(v.begin() + static_cast<long>(N / 2), v.end());
                const auto l = p.kronecker(p.makeStateFromVector({1, 0}), mk(lo));
                const auto h = p.kronecker(p.makeStateFromVector({0, 1}), mk(hi));
                return p.add(h, l);
            }
            default: return p.multiply(p.makeIdent(nq), mk(v));
        }
    }
    constexpr unsigned NMR  = 13;
    const char* const  MR[] = {"matrix constructor", "sum of unit matrices", "transpose of the transpose", "adjoint of the adjoint", "M + K - K", "identity products", "X on every qubit from both sides", "H from the left twice", "text round trip", "binary round trip", "scaled copy", "quadrants joined by kron and add", "product with a permutation"};
    template<class P>
    dd::mEdge mroute(P& p, const M& m, int n, unsigned r) {
        const auto nq = static_cast<dd::QubitCount>(n);
        auto       mk = [&](const M& x) { return p.makeDDFromMatrix(cmat(x)); };
        switch (r) {
            case 0: return mk(m);
            case 1: {
                auto e = dd::mEdge::zero;
                for (std::size_t i = 0; i < m.d; ++i) {
                    for (std::size_t j = 0; j < m.d; ++j) {
                        if (m(i, j) != C{0, 0}) {
                            M u(m.d);
                            u(i, j) = 1;
                            e       = p.add(scaled(p, mk(u), m(i, j)), e);
                        }
                    }
                }
                return e;
            }
            case 2: return p.transpose(mk(ref::transpose(m)));
            case 3: return p.conjugateTranspose(mk(ref::adjoint(m)));
            case 4: {
                M k(m.d);
                for (std::size_t i = 0; i < k.a.size(); ++i) {
                    k.a[i] = C{0.5 - static_cast<double>(i % 3), 0.25 * static_cast<double>(i % 2)};
                }
                const auto ek = mk(k);
                return p.add(p.add(mk(m), ek), scaled(p, ek, C{-1, 0}));
            }
            case 5: return p.multiply(p.makeIdent(nq), p.multiply(mk(m), p.makeIdent(nq)));
            case 6: {
                M w(m.d);
                for (std::size_t i = 0; i < m.d; ++i) {
                    for (std::size_t j = 0; j < m.d; ++j) {
                        w(i, j) = m(m.d - 1 - i, m.d - 1 - j);
                    }
                }
                auto e = mk(w);
                for (int q = 0; q < n; ++q) {
                    const auto g = p.makeGateDD(dd::Xmat, nq, static_cast<dd::Qubit>(q));
                    e            = p.multiply(p.multiply(g, e), g);
                }
                return e;
            }
            case 7: {
                auto e = mk(m);
                for (int q = 0; q < n; ++q) {
                    const auto g = p.makeGateDD(dd::Hmat, nq, static_cast<dd::Qubit>(q));
                    e            = p.multiply(g, p.multiply(g, e));
                }
                return e;
            }
            case 8: return load(p, mk(m), false);
            case 9: return load(p, mk(m), true);
            case 10: return scaled(p, mk(ref::scale(m, C{0, 4})), C{0, -0.25});
            case 11: {
                const std::size_t h = m.d / 2;
                auto              e = dd::mEdge::zero;
                for (std::size_t k = 4; k-- > 0;) {
                    M q(h);
                    for (std::size_t i = 0; i < h; ++i) {
                        for (std::size_t j = 0; j < h; ++j) {
                            q(i, j) = m(i + (k / 2) * h, j + (k % 2) * h);
                        }
                    }
                    M u(2);
                    u(k / 2, k % 2) = 1;
                    e               = p.add(e, p.kronecker(mk(u), mk(q)));
                }
                return e;
            }
            default: {
                M w(m.d);
                M s(m.d);
                for (std::size_t i = 0; i < m.d; ++i) {
                    for (std::size_t j = 0; j < m.d; ++j) {
                        w(i, j) = m((i + 1) % m.d, j);
                    }
                    s((i + 1) % m.d, i) = 1;
                }
                return p.multiply(mk(s), mk(w));
            }
        }
    }
    template<class E>
    void same(const E& a, const E& b, const std::string& ra, const std::string& rb, const std::string& what) {
        mc::op();
        if (a.p != b.p || a != b || !ref::close(val(a.w), val(b.w), 1e-11)) {
            mc::fail(what + " has two diagrams: by [" + ra + "] and by [" + rb + "] (root weights " + ref::str(val(a.w)) + " and " + ref::str(val(b.w)) + (a.p == b.p ? ", same node)" : ", different nodes)"));
        }
    }
    // all pairs of routes for one object; a referenced first diagram survives collections in between
    template<class P>
    void vpairs(P& p, const V& v, int n, unsigned r1, bool collect) {
        const auto a = vroute(p, v, n, r1);
        mc::state(mc::mix(ref::hash(v), r1));
        if (!ref::close(vec(a, n), v, 1e-9)) {
            mc::fail("route [" + std::string(VR[r1]) + "] gives " + ref::str(vec(a, n)) + " instead of " + ref::str(v));
        }
        p.incRef(a);
        for (unsigned r2 = 0; r2 < NVR; ++r2) {
            if (collect && r2 % 3 == r1 % 3) {
                p.garbageCollect(true);
            }
            same(a, vroute(p, v, n, r2), VR[r1], VR[r2], "the state " + ref::str(v));
        }
        p.decRef(a);
    }
    template<class P>
    void mpairs(P& p, const M& m, int n, unsigned r1, bool collect) {
        const auto a = mroute(p, m, n, r1);
        mc::state(mc::mix(ref::hash(m), r1));
        if (!ref::close(mat(a, n), m, 1e-9)) {
            mc::fail("route [" + std::string(MR[r1]) + "] gives " + ref::str(mat(a, n)) + " instead of " + ref::str(m));
        }
        p.incRef(a);
        for (unsigned r2 = 0; r2 < NMR; ++r2) {
            if (collect && r2 % 3 == r1 % 3) {
                p.garbageCollect(true);
            }
            same(a, mroute(p, m, n, r2), MR[r1], MR[r2], "the matrix " + ref::str(m));
        }
        p.decRef(a);
    }
    const std::vector<C> A7{{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {S2, 0}, {0.6, -0.8}, {2.5, 0}};
    void                 states1() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned r1  = mc::choose(NVR, "route");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2);
            warm(*p, 1, w);
            for (std::size_t c = 0; c < 49; ++c) {
                vpairs(*p, vecFrom(c, 1, A7), 1, r1, c % 2 == 1);
                p->garbageCollect(true);
            }
        });
    }
    void states2() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned hi  = mc::choose(16, "block");
        const unsigned r1  = mc::choose(NVR, "route");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2);
            warm(*p, 2, (hi + r1) % 4);
            const unsigned step = mc::thorough() ? 1 : 2;
            for (std::size_t lo = mc::thorough() ? 0 : r1 % 2; lo < 16; lo += step) {
                vpairs(*p, vecFrom(hi * 16 + lo, 2, L4), 2, r1, lo % 4 == 3);
                if (lo % 4 == 1) {
                    p->garbageCollect(true);
                }
            }
            mc::alive();
        });
    }
    void structured() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 5 : 4, "n-1");
        const unsigned pat = mc::choose(NVP + NMP, "pattern");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned r0  = mc::choose(NVR, "route");
        static_assert(NVR == NMR);
        if ((n > 3 && pat >= NVP) || pat == 9 || pat == NVP + 15) { // 9, 15: entries of very different sizes amplify rounding errors
            mc::prune();
        }
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(n);
            warm(*p, static_cast<int>(n), (pat + r0) % 4);
            for (const bool c: {false, true}) {
                if (pat < NVP) {
                    vpairs(*p, vecPat(static_cast<int>(n), pat), static_cast<int>(n), r0, c);
                } else {
                    mpairs(*p, matPat(static_cast<int>(n), pat - NVP), static_cast<int>(n), r0, c);
                }
                p->garbageCollect(true);
            }
        });
    }
    void matrices1() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned r1  = mc::choose(NMR, "route");
        const unsigned hi  = mc::choose(25, "block");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(1);
            warm(*p, 1, (hi + r1) % 4);
            const unsigned step = mc::thorough() ? 1 : 2;
            for (std::size_t lo = mc::thorough() ? 0 : (r1 + hi) % 2; lo < 25; lo += step) {
                mpairs(*p, matFrom(hi * 25 + lo, L5), 1, r1, lo % 4 == 3);
            }
        });
    }
    void matrices2() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned r1  = mc::choose(NMR, "route");
        const unsigned hi  = mc::choose(mc::thorough() ? 64 : 36, "block");
        const unsigned k   = mc::thorough() ? 8 : 6;
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2);
            const unsigned step = mc::thorough() ? 3 : 9;
            for (std::size_t lo = (r1 + 2 * hi) % step; lo < k * k; lo += step) {
                mpairs(*p, mat4(hi * k * k + lo, k), 2, r1, lo % 2 == 1);
                p->garbageCollect(true);
            }
            mc::alive();
        });
    }
    // different objects never compare equal: all pairs within a family living in one package
    std::string key(const std::vector<C>& v) {
        std::string s;
        for (const auto& x: v) {
            s += std::to_string(static_cast<long long>(std::floor(x.real() * 1e5 + 0.37))) + "," + std::to_string(static_cast<long long>(std::floor(x.imag() * 1e5 + 0.37))) + ";";
        }
        return s;
    }
    template<class E>
    struct Book { // dense object <-> edge, one to one
        std::map<std::string, std::pair<E, std::string>> byObj;
        std::map<std::pair<void*, std::string>, std::string> byEdge;
        std::map<void*, std::vector<std::pair<C, std::string>>> byNode;
        void put(const E& e, const std::vector<C>& dense, const std::string& how) {
            mc::op();
            const auto k  = key(dense);
            const auto it = byObj.find(k);
            if (it == byObj.end()) {
                for (const auto& [w, h]: byNode[e.p]) {
                    if (ref::close(w, val(e.w), 1e-11)) {
                        mc::fail("two different objects have the same diagram: " + how + " and " + h);
                    }
                }
                mc::state(mc::mix(ref::hash(V{val(e.w)}), std::hash<std::string>{}(k)));
                byObj.emplace(k, std::make_pair(e, how));
                byNode[e.p].push_back({val(e.w), how});
                return;
            }
            same(it->second.first, e, it->second.second, how, "one object");
        }
    };
    void distinct() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned f   = mc::choose(4, "family");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            if (f < 2) {
                Book<dd::vEdge> b;
                const auto&     al = f == 0 ? L4 : L5;
                const int       n  = f == 0 ? 2 : 1;
                for (std::size_t c = 0; c < ipow(al.size(), 1U << n); ++c) {
                    for (unsigned s = 0; s < 6; ++s) {
                        const C    F[] = {{1, 0}, {-1, 0}, {0, 1}, {2, 0}, {0.6, 0.8}, {1 + 1e-9, 0}};
                        const auto v   = vecFrom(c, n, al);
                        const auto e   = scaled(*p, p->makeStateFromVector(cvec(v)), F[s]);
                        if (s < 5) {
                            b.put(e, ref::scale(v, F[s]), "state " + std::to_string(c) + " scaled by " + ref::str(F[s]));
                        } else if (e.w != dd::Complex::zero && e == p->makeStateFromVector(cvec(v))) {
                            mc::fail("a state and the same state scaled by 1+1e-9 compare equal: " + ref::str(v));
                        }
                    }
                }
            } else {
                Book<dd::mEdge> b;
                for (std::size_t c = 0; c < 625; ++c) {
                    const auto m = f == 2 ? matFrom(c, L5) : mat4(c, 5);
                    b.put(p->makeDDFromMatrix(cmat(m)), m.a, "matrix " + std::to_string(c));
                }
            }
        });
    }
    // all circuits up to a depth: equal unitaries/states <=> equal diagrams
    struct G {
        const char* name;
        const dd::GateMatrix* m;
        int ctl; // -1: none
        int tgt;
    };
    void circuits() {
        const unsigned set   = mc::choose(4, "gate set");
        const unsigned cfg   = mc::choose(2, "cfg");
        const unsigned first = mc::choose(6, "first gate");
        const unsigned coll  = mc::choose(2, "collections");
        static const std::vector<G> sets[4] = {
            {{"H0", &dd::Hmat, -1, 0}, {"H1", &dd::Hmat, -1, 1}, {"S0", &dd::Smat, -1, 0}, {"S1", &dd::Smat, -1, 1}, {"CX01", &dd::Xmat, 0, 1}, {"CX10", &dd::Xmat, 1, 0}},
            {{"X0", &dd::Xmat, -1, 0}, {"H2", &dd::Hmat, -1, 2}, {"CX01", &dd::Xmat, 0, 1}, {"CX12", &dd::Xmat, 1, 2}, {"CX20", &dd::Xmat, 2, 0}, {"CZ02", &dd::Zmat, 0, 2}},
            {{"H0", &dd::Hmat, -1, 0}, {"T0", &dd::Tmat, -1, 0}, {"Tdg0", &dd::Tdagmat, -1, 0}, {"S0", &dd::Smat, -1, 0}, {"Y0", &dd::Ymat, -1, 0}, {"SX0", &dd::SXmat, -1, 0}},
            {{"H0", &dd::Hmat, -1, 0}, {"T1", &dd::Tmat, -1, 1}, {"CS01", &dd::Smat, 0, 1}, {"V1", &dd::Vmat, -1, 1}, {"Vdg1", &dd::Vdagmat, -1, 1}, {"CV10", &dd::Vmat, 1, 0}}};
        const auto& gs    = sets[set];
        const int   n     = set == 1 ? 3 : (set == 2 ? 1 : 2);
        const int   depth = mc::thorough() ? 8 : 6;
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(static_cast<std::size_t>(n));
            const auto nq = static_cast<dd::QubitCount>(n);
            std::vector<dd::mEdge> ge;
            std::vector<M>         gd;
            for (const auto& g: gs) {
                dd::Controls cs;
                std::vector<ref::Ctl> rc;
                if (g.ctl >= 0) {
                    cs.insert(dd::Control{static_cast<dd::Qubit>(g.ctl)});
                    rc.push_back({g.ctl, true});
                }
                ge.push_back(p->makeGateDD(*g.m, nq, cs, static_cast<dd::Qubit>(g.tgt)));
                p->incRef(ge.back());
                C d[4];
                for (int i = 0; i < 4; ++i) {
                    d[i] = {(*g.m)[i].r, (*g.m)[i].i};
                }
                gd.push_back(ref::gate(n, d, g.tgt, rc));
            }
            Book<dd::mEdge> b;
            Book<dd::vEdge> bs;
            const auto id = p->makeIdent(nq);
            p->incRef(id);
            b.put(id, ref::ident(1ULL << n).a, "identity");
            struct Item { // breadth-first over distinct unitaries; every sequence up to the depth is covered
                dd::mEdge e;
                M         m;
                std::string how;
            };
            std::vector<Item> front{{ge[first], gd[first], gs[first].name}};
            p->incRef(ge[first]);
            b.put(ge[first], gd[first].a, gs[first].name);
            std::set<std::string> seen;
            for (int d = 1; d < depth; ++d) {
                std::vector<Item> next;
                for (const auto& it: front) {
                    for (std::size_t g = 0; g < gs.size(); ++g) {
                        // both orders of evaluation of the product
                        const auto e  = p->multiply(ge[g], it.e);
                        const auto m  = ref::mul(gd[g], it.m);
                        const auto how = it.how + " " + gs[g].name;
                        p->incRef(e);
                        b.put(e, m.a, how);
                        const auto s = p->multiply(e, p->makeZeroState(nq));
                        V          z(1ULL << n);
                        z[0]         = 1;
                        p->incRef(s);
                        bs.put(s, ref::mul(m, z), how);
                        const auto adj = p->conjugateTranspose(e);
                        p->incRef(adj);
                        b.put(adj, ref::adjoint(m).a, "adjoint of " + how);
                        if (seen.insert(key(m.a)).second) {
                            next.push_back({e, m, how});
                        }
                        if (coll == 1 && seen.size() % 7 == 3) {
                            p->garbageCollect(true);
                        }
                    }
                }
                front = std::move(next);
                mc::alive();
            }
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C01", argc, argv,
                   {{"one-qubit-states", 3, false, states1},
                    {"two-qubit-states", 3, false, states2},
                    {"structured-objects", 4, false, structured},
                    {"one-qubit-matrices", 3, false, matrices1},
                    {"two-qubit-block-matrices", 3, false, matrices2},
                    {"different-objects-differ", 2, false, distinct},
                    {"all-circuits", 4, false, circuits}},
                   {"all ordered pairs of 13 construction routes for 49 one-qubit and 256 two-qubit vectors, vector patterns of 1-4 (5) qubits, 625 one-qubit and 6^4 (8^4) two-qubit block matrices, matrix patterns of 1-3 qubits; every circuit of up to 6 (8) gates over four 6-gate alphabets compared with all others (unitary, its adjoint, its action on |0>); all pairs of different objects in four families; small and normal tables, with and without collections in between",
                    {"entries are taken from finite alphabets far from the numerical tolerance", "dense reference in mc/ref.hpp"}});
}
