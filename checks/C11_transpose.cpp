// C11: transpose and conjugate transpose equal the dense ones.
#include "ddx.hpp"
using namespace ddx;
namespace {
    // transpose, adjoint, both twice, both combined, in an order given by `ord`
    template<class P>
    void ask(P& p, const dd::mEdge& e, const M& a, int n, unsigned ord, int base = 0) {
        const auto name = [&] { return n <= 2 ? ref::str(a) : std::string("a matrix"); };
        const auto T    = [&] {
            const auto t = p.transpose(e);
            expect(mat(t, n, base), ref::transpose(a), "transpose of " + name());
            const auto tt = p.transpose(t);
            MC_CHECK(tt == e, "transposing " << name() << " twice does not return the original diagram");
            const auto ct = p.conjugateTranspose(t);
            auto       cj = a;
            for (auto& x: cj.a) {
                x = std::conj(x);
            }
            expect(mat(ct, n, base), cj, "conjugate transpose of the transpose of " + name());
        };
        const auto A = [&] {
            const auto h = p.conjugateTranspose(e);
            expect(mat(h, n, base), ref::adjoint(a), "conjugate transpose of " + name());
            const auto hh = p.conjugateTranspose(h);
            MC_CHECK(hh == e, "conjugate-transposing " << name() << " twice does not return the original diagram");
            const auto th = p.transpose(h);
            auto       cj = a;
            for (auto& x: cj.a) {
                x = std::conj(x);
            }
            expect(mat(th, n, base), cj, "transpose of the conjugate transpose of " + name());
        };
        if ((ord & 1U) != 0) {
            A();
            T();
        } else {
            T();
            A();
        }
        if ((ord & 2U) != 0) { // once more, now from the cache
            A();
            T();
        }
        expect(mat(e, n, base), a, "operand after transposing");
    }
    const C F[] = {{1, 0}, {-1, 0}, {0, 1}, {0.5, 0}, {3, -4}, {1e-4, 1e-5}, {0, 0}, {1, 1e-3}};
    void one() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned hi  = mc::choose(27, "part");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(1);
            warm(*p, 1, w);
            NoLeak<P> nl(*p);
            for (unsigned x = hi; x < 6561; x += 27) {
                const auto a = matFrom(x, L9);
                const auto e = p->makeDDFromMatrix(cmat(a));
                ask(*p, e, a, 1, x);
            }
            nl.check("transposition");
        });
    }
    void two() {
        const unsigned k   = 8;
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned hi  = mc::choose(64, "part");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2);
            warm(*p, 2, w);
            NoLeak<P> nl(*p);
            for (unsigned x = hi; x < 4096; x += 64) {
                const auto a = mat4(x, k);
                const auto e = p->makeDDFromMatrix(cmat(a));
                ask(*p, e, a, 2, x / 64);
                const C c = F[x / 64 % 8];
                ask(*p, scaled(*p, e, c), ref::scale(a, c), 2, x / 64);
            }
            nl.check("transposition");
        });
    }
    // all outer arrangements of inner blocks that are symmetric, hermitian, both or neither, with factors
    void nested() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned hi  = mc::choose(144, "upper blocks");
        static const std::vector<M> B = [] {
            std::vector<M> b{M(4), ref::ident(4)};
            b.push_back(blocks(m2(0, 1, 0, 0), m2(1, 0, 0, 1), m2(1, 0, 0, 1), m2(0, 0, 1, 0)));  // not symmetric
            b.push_back(ref::transpose(b[2]));
            b.push_back(blocks(m2(1, C{0, 1}, C{0, -1}, 2), m2(0, 0, 0, 0), m2(0, 0, 0, 0), m2(0, C{0, 1}, C{0, -1}, 0))); // hermitian
            b.push_back(blocks(m2(1, C{0, 1}, C{0, 1}, 2), m2(0, 0, 0, 0), m2(0, 0, 0, 0), m2(0, 1, 1, 0)));              // symmetric
            b.push_back(ref::scale(b[2], C{0, 0.5}));
            b.push_back(ref::scale(b[3], C{0, 0.5}));
            b.push_back(ref::adjoint(b[6]));
            b.push_back(blocks(m2(1, 2, 3, 4), m2(0, 1, 1, 0), m2(0, 1, 1, 0), m2(4, 3, 2, 1)));
            b.push_back(blocks(m2(1, 0, 0, 0), m2(0, 0, 1, 0), m2(0, 1, 0, 0), m2(0, 0, 0, 1)));
            b.push_back(blocks(m2(0, 0, 0, 0), m2(0, 1, 0, 0), m2(0, 0, 0, 0), m2(0, 0, 0, 0)));
            return b;
        }();
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            NoLeak<P> nl(*p);
            for (unsigned lo = 0; lo < 144; ++lo) {
                const auto a = blocks(B[hi % 12], B[lo % 12], B[lo / 12], B[hi / 12]);
                const auto e = p->makeDDFromMatrix(cmat(a));
                ask(*p, e, a, 3, lo);
                if (lo % 36 == 35) {
                    p->garbageCollect(true);
                    mc::alive();
                }
            }
            nl.check("transposition");
        });
    }
    void shapes() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 6 : 5, "n-1");
        const unsigned pa  = mc::choose(NMP, "pattern");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n + 1);
            warm(*p, std::min(ni, 4), w);
            NoLeak<P> nl(*p);
            const auto a = matPat(ni, pa);
            const auto e = p->makeDDFromMatrix(cmat(a));
            p->incRef(e);
            for (unsigned round = 0; round < 2; ++round) {
                for (unsigned f = 0; f < 8; ++f) {
                    // scaled copies of one node: the result must not be confused between weights
                    ask(*p, scaled(*p, e, F[f]), ref::scale(a, F[f]), ni, f + round);
                }
                // laws over products, sums and tensor products
                if (n <= 4) {
                    for (unsigned pb = 0; pb < NMP; ++pb) {
                        const auto b  = matPat(ni, pb);
                        const auto eb = p->makeDDFromMatrix(cmat(b));
                        expect(mat(p->conjugateTranspose(p->multiply(e, eb)), ni), ref::adjoint(ref::mul(a, b)), "conjugate transpose of a product", 1e-7);
                        expect(mat(p->multiply(p->transpose(eb), p->transpose(e)), ni), ref::transpose(ref::mul(a, b)), "product of transposes", 1e-7);
                        expect(mat(p->transpose(p->add(e, eb)), ni), ref::transpose(ref::add(a, b)), "transpose of a sum");
                    }
                    const auto k  = matPat(1, (pa + 1) % NMP);
                    const auto ek = p->kronecker(e, p->makeDDFromMatrix(cmat(k)));
                    ask(*p, ek, ref::kron(a, k), ni + 1, pa);
                }
                nl.check("transposition");
                p->garbageCollect(true);
            }
            p->decRef(e);
        });
    }
    // every gate with every control assignment
    void gates() {
        const unsigned n   = 2 + mc::choose(mc::thorough() ? 4 : 3, "n-2");
        const unsigned tgt = mc::choose(n, "target");
        const unsigned g   = mc::choose(6, "gate");
        const unsigned cfg = mc::choose(2, "cfg");
        static const C G[6][4] = {{S2, S2, S2, -S2}, {0, 1, 1, 0}, {0, C{0, -1}, C{0, 1}, 0}, {1, 0, 0, C{0.6, 0.8}}, {0.8, -0.6, 0.6, 0.8}, {1, C{2, 1}, 3, C{0, 4}}};
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n);
            for (std::size_t c = 0; c < pow3(ni - 1); ++c) {
                const auto ctl = controlsFrom(c, ni, {static_cast<int>(tgt)});
                const auto e   = p->makeGateDD(gm(G[g]), static_cast<dd::QubitCount>(n), ctls(ctl), static_cast<dd::Qubit>(tgt));
                ask(*p, e, ref::gate(ni, G[g], static_cast<int>(tgt), ctl), ni, static_cast<unsigned>(c));
            }
        });
    }
    void wide() {
        const unsigned sizes[] = {0, 8, 31, 32, 63, 64, 65, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned stride  = mc::choose(3, "stride");
        auto           p       = std::make_unique<Pkg<Mid>>(std::max(n, 1U));
        if (n == 0) { // scalars
            for (const auto& c: L9) {
                const auto e = dd::mEdge::terminal(p->cn.lookup(c.real(), c.imag()));
                expect(mat(p->transpose(e), 0).a, V{c}, "transpose of a scalar");
                expect(mat(p->conjugateTranspose(e), 0).a, V{std::conj(c)}, "conjugate transpose of a scalar");
            }
            return;
        }
        const unsigned s = stride == 0 ? 1 : (stride == 1 ? 5 : 17);
        auto           m = p->makeIdent(static_cast<dd::QubitCount>(n));
        const C        g[] = {0.6, C{0, -0.3}, C{0.8, 0.1}, C{0.5, 0.5}};
        for (unsigned q = 0; q < n; q += s) {
            m = p->multiply(p->makeGateDD(gm(g), static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(q)), m);
        }
        const auto t  = p->transpose(m);
        const auto h  = p->conjugateTranspose(m);
        MC_CHECK(p->transpose(t) == m, "transposing twice on " << n << " qubits");
        MC_CHECK(p->conjugateTranspose(h) == m, "conjugate-transposing twice on " << n << " qubits");
        // entries that differ from the main diagonal in up to two positions
        for (unsigned k = 0; k < n; k += s) {
            for (unsigned d = 1; d < 4; ++d) {
                const unsigned k2 = (k * 3 + d * s) % n / s * s;
                std::string    x(n, '0');
                x[k] = static_cast<char>('0' + d);
                if (k2 != k) {
                    x[k2] = static_cast<char>('0' + (d * 2) % 4);
                }
                std::string y = x;
                for (auto& c: y) {
                    c = c == '1' ? '2' : (c == '2' ? '1' : c);
                }
                const auto o  = cv(p->getValueByPath(m, x));
                const auto a  = cv(p->getValueByPath(t, y));
                const auto b  = cv(p->getValueByPath(h, y));
                const auto tol = 1e-9 * (std::abs(o) + 1e-30);
                mc::op();
                mc::state(mc::mix(mc::mix(k, d), n));
                MC_CHECK(ref::close(o, a, tol), "transpose on " << n << " qubits: entry " << y << " is " << ref::str(a) << ", expected " << ref::str(o));
                MC_CHECK(ref::close(std::conj(o), b, tol), "conjugate transpose on " << n << " qubits: entry " << y << " is " << ref::str(b) << ", expected the conjugate of " << ref::str(o));
            }
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C11", argc, argv,
                   {{"all-1-qubit-matrices", 3, false, one},
                    {"2-qubit-block-matrices", 3, false, two},
                    {"nested-blocks", 2, false, nested},
                    {"structured-and-scaled", 4, false, shapes},
                    {"controlled-gates", 4, false, gates},
                    {"scalars-and-wide-registers", 2, false, wide}},
                   {"all 6561 2x2 matrices over 9 letters and 4096 two-qubit block matrices in four package conditions; all 12^4 arrangements of 12 inner 4x4 blocks; 16 patterns up to 5 (6) qubits with 8 scale factors and laws over products, sums and tensor products; 6 gates with every control assignment up to 4 (5) qubits; registers up to 128 qubits; every question in both orders and repeated; small and normal tables",
                    {"entries are taken from finite alphabets", "dense reference in mc/ref.hpp"}});
}
