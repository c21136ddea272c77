// C26: transferring a diagram between packages preserves it.
#include "ddx.hpp"
using namespace ddx;
namespace {
    inline V dense(const dd::vEdge& e, int n, int base = 0) { return vec(e, n, base); }
    inline V dense(const dd::mEdge& e, int n, int base = 0) { return mat(e, n, base).a; }
    inline const void* entry(const dd::CTEntry* e) { return reinterpret_cast<const void*>(reinterpret_cast<std::uintptr_t>(e) & ~static_cast<std::uintptr_t>(1)); }
    template<class E>
    void parts(const E& e, std::set<const void*>& out) { // nodes and numbers, except the ones all packages share
        for (const auto* c: {e.w.r, e.w.i}) {
            const auto* x = entry(c);
            if (x != &dd::ComplexTable<>::zero && x != &dd::ComplexTable<>::one && x != &dd::ComplexTable<>::sqrt2_2) {
                out.insert(x);
            }
        }
        if (e.isTerminal() || !out.insert(e.p).second) {
            return;
        }
        for (const auto& c: e.p->e) {
            parts(c, out);
        }
    }
    struct Counts {
        std::size_t v, m, c;
        template<class P>
        explicit Counts(P& p):
            v(p.vUniqueTable.getNodeCount()), m(p.mUniqueTable.getNodeCount()), c(p.cn.complexTable.getCount()) {}
        bool operator==(const Counts& o) const { return v == o.v && m == o.m && c == o.c; }
    };
    // transfer from p to q
    template<class P, class Q, class E>
    E move(P& p, Q& q, E e, int n, const V& want, int base = 0) {
        const Counts before(p);
        NoLeak<P>    lp(p);
        NoLeak<Q>    lq(q);
        const E      copy = e;
        const E      r    = q.transfer(e);
        mc::op();
        MC_CHECK(e == copy, "transferring changed the edge that was transferred");
        MC_CHECK(Counts(p) == before, "transferring changed the number of nodes or numbers of the source package");
        expect(dense(r, n, base), want, "transferred diagram", 1e-10 * scaleOf(want));
        MC_CHECK(ref::close(dense(e, n, base), want, 1e-9 * scaleOf(want)), "transferring changed the source diagram to " << ref::str(dense(e, n, base)));
        std::set<const void*> a, b;
        parts(e, a);
        parts(r, b);
        for (const auto* x: b) {
            MC_CHECK(a.count(x) == 0, "the transferred diagram uses a node or number of the source package");
        }
        lp.check("transferring (source)");
        lq.check("transferring (target)");
        MC_CHECK(q.transfer(e) == r, "transferring twice gives two different diagrams");
        return r;
    }
    // what the target package would build itself
    template<class Q>
    void own(Q& q, const dd::vEdge& r, const V& a) { MC_CHECK(q.makeStateFromVector(cvec(a)) == r, "the transferred state is not the diagram the target builds of " << ref::str(a)); }
    template<class Q>
    void own(Q& q, const dd::mEdge& r, const M& a) { MC_CHECK(q.makeDDFromMatrix(cmat(a)) == r, "the transferred matrix is not the diagram the target builds of " << ref::str(a)); }

    const C F[] = {{1, 0}, {-1, 0}, {0, -1}, {0.5, 0}, {3, -4}, {0, 0}, {1.0 / 3, 0.25}};
    void states() {
        const unsigned n     = 1 + mc::choose(3, "qubits-1");
        const unsigned w     = mc::choose(4, "env");
        const unsigned order = mc::choose(2, "tables");
        const unsigned hi    = mc::choose(27, "part");
        withCfg(order, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            using Q = Pkg<Tiny>;
            const auto& alpha = n <= 2 ? L9 : L4;
            const auto  total = ipow(alpha.size(), 1ULL << n);
            const auto  ni    = static_cast<int>(n);
            auto        p     = std::make_unique<P>(n);
            auto        q     = std::make_unique<Q>(n + (w & 1U));
            warm(*p, ni, w);
            warm(*q, ni, 3 - w);
            dd::vEdge keep = q->makeStateFromVector(cvec(vecPat(ni, 6)));
            q->incRef(keep);
            unsigned k = 0;
            for (std::size_t x = hi; x < total; x += 27, ++k) {
                const auto a = vecFrom(x, ni, alpha);
                const C    f = F[k % 7];
                const auto b = ref::scale(a, f);
                const auto r = move(*p, *q, scaled(*p, p->makeStateFromVector(cvec(a)), f), ni, b);
                // very different sizes have no stable normal form under the absolute tolerance
                if (f == C{1, 0} && std::none_of(a.begin(), a.end(), [](const C& c) { return c != C{0, 0} && std::abs(c) < 1e-3; })) {
                    own(*q, r, a);
                }
                if (k % 16 == 15) {
                    q->garbageCollect(true);
                    expect(vec(keep, ni), vecPat(ni, 6), "another state of the target");
                    mc::alive();
                }
            }
        });
    }
    void shapes() { // all arrangements of equal, different and zero parts
        const unsigned cfg = mc::choose(2, "tables");
        const unsigned hi  = mc::choose(27, "part");
        static const std::vector<V> Q_{{0, 0}, {1, 0}, {1, C{0, 1}}, {0, 1}};
        const unsigned              k = mc::thorough() ? 4 : 3;
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(4);
            auto q  = std::make_unique<P>(4);
            for (std::size_t x = hi; x < ipow(k, 8); x += 27) {
                V           a;
                std::size_t c = x;
                for (unsigned i = 0; i < 8; ++i, c /= k) {
                    a.insert(a.end(), Q_[c % k].begin(), Q_[c % k].end());
                }
                const auto r = move(*p, *q, p->makeStateFromVector(cvec(a)), 4, a);
                own(*q, r, a);
                if (x / 27 % 32 == 31) {
                    p->garbageCollect(true);
                    q->garbageCollect(true);
                    mc::alive();
                }
            }
        });
    }
    void matrices() {
        const unsigned n   = 1 + mc::choose(2, "qubits-1");
        const unsigned w   = mc::choose(4, "env");
        const unsigned cfg = w & 1U;
        const unsigned hi  = mc::choose(32, "part");
        withCfg(cfg, [&](auto t) {
            using P           = Pkg<typename decltype(t)::type>;
            const auto  ni    = static_cast<int>(n);
            const auto  total = n == 1 ? 6561U : 4096U;
            auto        p     = std::make_unique<P>(n);
            auto        q     = std::make_unique<P>(n + 1);
            warm(*p, ni, w);
            warm(*q, ni, 3 - w);
            unsigned k = 0;
            for (std::size_t x = hi; x < total; x += 32, ++k) {
                const auto a = n == 1 ? matFrom(x, L9) : mat4(x, 8);
                const C    f = F[k % 7];
                const auto b = ref::scale(a, f);
                const auto r = move(*p, *q, scaled(*p, p->makeDDFromMatrix(cmat(a)), f), ni, b.a);
                if (f == C{1, 0} && n == 2) {
                    own(*q, r, a);
                }
                if (k % 64 == 63) {
                    q->garbageCollect(true);
                    mc::alive();
                }
            }
        });
    }
    // all arrangements of inner blocks that are equal up to a factor
    void nested() {
        const unsigned              hi = mc::choose(64, "upper blocks");
        static const std::vector<M> B{M(4), ref::ident(4), matPat(2, 1), ref::scale(matPat(2, 1), C{0, -0.5}), matPat(2, 14), ref::transpose(matPat(2, 1)), ref::scale(ref::ident(4), -1), matPat(2, 10)};
        auto                        p = std::make_unique<Pkg<Mid>>(3);
        auto                        q = std::make_unique<Pkg<Tiny>>(3);
        for (unsigned lo = 0; lo < 64; ++lo) {
            const auto a = blocks(B[hi % 8], B[lo % 8], B[lo / 8], B[hi / 8]);
            const auto r = move(*p, *q, p->makeDDFromMatrix(cmat(a)), 3, a.a);
            own(*q, r, a);
            if (lo % 16 == 15) {
                q->garbageCollect(true);
                mc::alive();
            }
        }
    }
    // sequences of transfers between three packages, with collections, the source package being cleared or destroyed in between
    void chains() {
        const unsigned pv = mc::choose(NVP, "state");
        const unsigned pm = mc::choose(NMP, "matrix");
        const unsigned op = mc::choose(4, "in between");
        const int      n  = 1 + static_cast<int>(mc::choose(3, "qubits-1"));
        auto           p  = std::make_unique<Pkg<Mid>>(3);
        auto           q  = std::make_unique<Pkg<Tiny>>(3);
        auto           s  = std::make_unique<Pkg<Tiny>>(4);
        const auto     a  = vecPat(n, pv);
        const auto     m  = matPat(n, pm);
        auto           e  = p->makeStateFromVector(cvec(a));
        auto           f  = p->makeDDFromMatrix(cmat(m));
        auto           e2 = move(*p, *q, e, n, a);
        auto           f2 = move(*p, *q, f, n, m.a);
        q->incRef(e2);
        q->incRef(f2);
        if (op == 0) {
            p.reset();
        } else if (op == 1) {
            p->reset();
            warm(*p, 3, 2);
        } else if (op == 2) {
            p->garbageCollect(true);
            warm(*p, 3, 3);
        }
        q->garbageCollect(true);
        warm(*q, 3, 2);
        expect(vec(e2, n), a, "transferred state after the source package changed");
        expect(mat(f2, n), m, "transferred matrix after the source package changed");
        const auto e3 = move(*q, *s, e2, n, a);
        const auto f3 = move(*q, *s, f2, n, m.a);
        expect(vec(s->multiply(f3, e3), n), ref::mul(m, a), "product of transferred diagrams", 1e-8);
        if (op == 3) { // and back
            MC_CHECK(p->transfer(e2) == e, "a state transferred back is not the original");
            MC_CHECK(p->transfer(f2) == f, "a matrix transferred back is not the original");
        }
        q->decRef(e2);
        q->decRef(f2);
        q->garbageCollect(true);
        MC_CHECK(q->vUniqueTable.getNodeCount() == 0 && q->mUniqueTable.getNodeCount() == 0, "transferred nodes cannot be collected");
        // within one package
        MC_CHECK(s->transfer(const_cast<dd::vEdge&>(e3)) == e3, "transfer within a package is not the identity");
    }
    void scalarsAndOffsets() {
        const unsigned base = mc::choose(4, "first qubit");
        const unsigned n    = 1 + mc::choose(3, "qubits-1");
        auto           p    = std::make_unique<Pkg<Mid>>(n + base);
        auto           q    = std::make_unique<Pkg<Tiny>>(n + base);
        for (const auto& c: L9) {
            const auto w = p->cn.lookup(c.real(), c.imag());
            move(*p, *q, dd::vEdge::terminal(w), 0, V{c});
            move(*p, *q, dd::mEdge::terminal(w), 0, V{c});
        }
        const auto ni = static_cast<int>(n);
        const auto bi = static_cast<int>(base);
        for (unsigned s = 0; s < ipow(4, n); ++s) {
            std::vector<dd::BasisStates> bs(n + base, dd::BasisStates::zero);
            static const dd::BasisStates K[] = {dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::minus, dd::BasisStates::left};
            for (unsigned k = 0, c = s; k < n; ++k, c /= 4) {
                bs[base + k] = K[c % 4];
            }
            const auto e = p->makeBasisState(static_cast<dd::QubitCount>(n), bs, base);
            const auto r = move(*p, *q, e, ni, vec(e, ni, bi), bi);
            MC_CHECK(r == q->makeBasisState(static_cast<dd::QubitCount>(n), bs, base), "the transferred state is not the one the target builds");
        }
        for (unsigned tq = 0; tq < n; ++tq) {
            for (std::size_t c = 0; c < pow3(ni - 1); ++c) {
                auto ctl = controlsFrom(c, ni, {static_cast<int>(tq)});
                for (auto& x: ctl) {
                    x.q += bi;
                }
                for (const auto& g: {dd::Hmat, dd::U3mat(0.3, 1.1, -0.7), dd::Ymat}) {
                    const auto e = p->makeGateDD(g, static_cast<dd::QubitCount>(n), ctls(ctl), static_cast<dd::Qubit>(base + tq), base);
                    const auto r = move(*p, *q, e, ni, mat(e, ni, bi).a, bi);
                    MC_CHECK(r == q->makeGateDD(g, static_cast<dd::QubitCount>(n), ctls(ctl), static_cast<dd::Qubit>(base + tq), base), "the transferred gate is not the one the target builds");
                }
            }
        }
    }
    void wide() {
        const unsigned sizes[] = {31, 64, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const auto     nq      = static_cast<dd::QubitCount>(n);
        auto           p       = std::make_unique<Pkg<Mid>>(n);
        auto           q       = std::make_unique<Pkg<Mid>>(n);
        auto           e       = p->makeZeroState(nq);
        for (unsigned k = 0; k < n; k += 1 + n / 16) {
            e = p->multiply(p->makeGateDD(dd::RYmat(0.3 + k), nq, static_cast<dd::Qubit>(k)), e);
        }
        e = p->multiply(p->makeGateDD(dd::Xmat, nq, dd::Control{0}, static_cast<dd::Qubit>(n - 1)), e);
        auto       m = p->makeGateDD(dd::U3mat(0.3, 1.1, -0.7), nq, dd::Controls{dd::Control{1}, dd::Control{static_cast<dd::Qubit>(n - 1), dd::Control::Type::neg}}, static_cast<dd::Qubit>(n / 2));
        const auto r = q->transfer(e);
        const auto s = q->transfer(m);
        for (unsigned k = 0; k < n; ++k) {
            for (unsigned l = 0; l < n; l += 5) {
                std::string path(n, '0'), mp(n, '0');
                path[k] = path[l] = '1';
                mp[k]             = '3';
                mp[l]             = static_cast<char>('0' + (k % 4));
                mc::op();
                mc::state(mc::mix(k, l));
                MC_CHECK(ref::close(cv(p->getValueByPath(e, path)), cv(q->getValueByPath(r, path)), 1e-11), "amplitude " << path);
                MC_CHECK(ref::close(cv(p->getValueByPath(m, mp)), cv(q->getValueByPath(s, mp)), 1e-11), "entry " << mp);
            }
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C26", argc, argv,
                   {{"all-small-states", 4, false, states},
                    {"shapes-of-sharing", 2, false, shapes},
                    {"small-matrices", 3, false, matrices},
                    {"nested-blocks", 1, false, nested},
                    {"chains-of-transfers", 3, false, chains},
                    {"scalars-and-offsets", 2, false, scalarsAndOffsets},
                    {"wide-registers", 1, false, wide}},
                   {"all states over the alphabets (81 of 1 qubit, 6561 of 2, 65536 of 3 qubits) with 7 root factors, 3^8 (4^8) four-qubit states over all arrangements of shared, distinct and zero parts, 6561 1-qubit and 4096 2-qubit block matrices, 8^4 arrangements of 8 inner blocks, 14 x 16 structured pairs passed along three packages with the source destroyed, reset or collected in between, product states and controlled gates with offset 0..3, scalars, registers up to 128 qubits; targets fresh, used and with tables of size 1",
                    {"weights are taken from finite alphabets"}});
}
