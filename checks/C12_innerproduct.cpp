// C12: inner product, fidelity, expectation value, fidelity of measurement outcomes.
#include "ddx.hpp"
using namespace ddx;
namespace {
    template<class P>
    void ask(P& p, const dd::vEdge& ea, const V& a, const dd::vEdge& eb, const V& b, const char* what) {
        const C      w   = ref::inner(a, b);
        const double tol = 1e-9 * std::max(1., std::sqrt(ref::norm2(a) * ref::norm2(b)));
        const auto   s   = [&](const char* k, const V& x, const V& y) { return std::string(k) + " of " + what + (x.size() <= 4 ? " " + ref::str(x) + " and " + ref::str(y) : ""); };
        expect(cv(p.innerProduct(ea, eb)), w, s("inner product", a, b), tol);
        expect(cv(p.innerProduct(eb, ea)), std::conj(w), s("inner product", b, a), tol);
        expect(C{p.fidelity(ea, eb), 0}, C{std::norm(w), 0}, s("fidelity", a, b), tol * std::max(1., std::abs(w)) * 2);
    }
    const C F[] = {{1, 0}, {-1, 0}, {0, 1}, {0.5, 0}, {3, -4}, {1e-4, 1e-5}, {0, 0}, {0.6, 0.8}};
    void one() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned hi  = mc::choose(27, "first operand");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(1);
            warm(*p, 1, w);
            NoLeak<P> nl(*p);
            for (std::size_t x = hi; x < 81; x += 27) {
                const auto a  = vecFrom(x, 1, L9);
                const auto ea = p->makeStateFromVector(cvec(a));
                for (std::size_t y = 0; y < 81; ++y) {
                    const auto b = vecFrom(y, 1, L9);
                    ask(*p, ea, a, p->makeStateFromVector(cvec(b)), b, "vectors");
                }
                ask(*p, ea, a, ea, a, "a vector with itself");
            }
            nl.check("inner product");
        });
    }
    void two() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(2, "env") * 3;
        const unsigned hi  = mc::choose(125, "first operand");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2);
            warm(*p, 2, w);
            NoLeak<P> nl(*p);
            for (std::size_t x = hi; x < 625; x += 125) {
                const auto a  = vecFrom(x, 2, L5);
                const auto ea = p->makeStateFromVector(cvec(a));
                for (std::size_t y = 0; y < 625; ++y) {
                    const auto b = vecFrom((y * 37 + x) % 625, 2, L5);
                    ask(*p, ea, a, p->makeStateFromVector(cvec(b)), b, "vectors");
                }
                p->garbageCollect(true);
            }
            nl.check("inner product");
        });
    }
    void shapes() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 8 : 6, "n-1");
        const unsigned pa  = mc::choose(NVP, "first");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n);
            warm(*p, std::min(ni, 4), w);
            NoLeak<P>  nl(*p);
            const auto a  = vecPat(ni, pa);
            const auto ea = p->makeStateFromVector(cvec(a));
            p->incRef(ea);
            for (unsigned round = 0; round < 2; ++round) {
                for (unsigned pb = 0; pb < NVP; ++pb) {
                    const auto b  = vecPat(ni, pb);
                    const auto eb = p->makeStateFromVector(cvec(b));
                    for (unsigned f = 0; f < 8; ++f) {
                        const C c = F[f];
                        const C d = F[(f * 3 + pb + round) % 8];
                        ask(*p, scaled(*p, ea, c), ref::scale(a, c), scaled(*p, eb, d), ref::scale(b, d), "scaled patterns");
                    }
                }
                nl.check("inner product");
                p->garbageCollect(true);
            }
            p->decRef(ea);
        });
    }
    // halves that are proportional to each other (the recursion meets the same node pairs with different weights)
    void shared() {
        const unsigned n   = 2 + mc::choose(3, "n-2");
        const unsigned pv  = mc::choose(NVP, "lower block");
        const unsigned cfg = mc::choose(2, "cfg");
        const C        H[] = {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0.25, 0}, {-2, 1}};
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(n);
            const auto lo = vecPat(static_cast<int>(n) - 1, pv);
            const auto l2 = vecPat(static_cast<int>(n) - 1, (pv + 3) % NVP);
            auto       make = [&](unsigned c, bool second) {
                V v = ref::scale(lo, H[c % 6]);
                V h = ref::scale(second ? l2 : lo, H[c / 6]);
                v.insert(v.end(), h.begin(), h.end());
                return v;
            };
            for (unsigned x = 0; x < 36; ++x) {
                const auto a  = make(x, false);
                const auto ea = p->makeStateFromVector(cvec(a));
                for (unsigned y = 0; y < 72; ++y) {
                    const auto b = make(y % 36, y >= 36);
                    ask(*p, ea, a, p->makeStateFromVector(cvec(b)), b, "vectors with proportional halves");
                }
            }
        });
    }
    // hermitian operators
    M hermitian(int n, unsigned k) {
        switch (k) {
            case 0: return ref::ident(1ULL << n);
            case 1: return matPat(n, 11);
            case 2: return ref::add(matPat(n, 1), ref::adjoint(matPat(n, 1)));
            case 3: {
                const C z[] = {1, 0, 0, -1};
                return ref::gate(n, z, n - 1);
            }
            case 4: {
                const C y[] = {0, C{0, -1}, C{0, 1}, 0};
                return ref::gate(n, y, 0);
            }
            case 5: return ref::add(matPat(n, 8), ref::adjoint(matPat(n, 8)));
            case 6: return ref::scale(ref::ident(1ULL << n), -0.5);
            case 7: {
                M r(1ULL << n);
                for (std::size_t i = 0; i < r.d; ++i) {
                    r(i, i) = static_cast<double>(i) - 1.5;
                }
                return r;
            }
            case 8: return ref::add(matPat(n, 6), ref::adjoint(matPat(n, 6)));
            default: {
                const C x[] = {0, 1, 1, 0};
                M       r   = ref::gate(n, x, 0);
                for (int q = 1; q < n; ++q) {
                    r = ref::mul(r, ref::gate(n, x, q));
                }
                return r;
            }
        }
    }
    void expectation() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 5 : 4, "n-1");
        const unsigned k   = mc::choose(10, "operator");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n + w % 2);
            warm(*p, ni, w);
            NoLeak<P>  nl(*p);
            const auto o  = hermitian(ni, k);
            const auto eo = p->makeDDFromMatrix(cmat(o));
            p->incRef(eo);
            const auto q = [&](const dd::mEdge& ex, const M& x, const dd::vEdge& es, const V& s) {
                const C want = ref::inner(s, ref::mul(x, s));
                p->incRef(es);
                p->incRef(ex);
                for (unsigned again = 0; again < 2; ++again) {
                    expect(C{p->expectationValue(ex, es), 0}, want, "expectation value on " + std::to_string(n) + " qubits", 1e-9 * std::max(1., std::abs(want)) * 10);
                    if (again == 0 && w == 2) {
                        p->garbageCollect(true);
                    }
                }
                expect(vec(es, ni), s, "state after taking an expectation value");
                p->decRef(es);
                p->decRef(ex);
            };
            for (unsigned pv = 0; pv < NVP; ++pv) {
                const auto s = vecPat(ni, pv);
                if (pv == 12) {
                    continue;
                }
                const auto es = p->makeStateFromVector(cvec(s));
                p->incRef(es);
                q(eo, o, es, s);
                for (const auto& f: {C{-1, 0}, C{0, 2}}) {
                    q(eo, o, scaled(*p, es, f), ref::scale(s, f));
                }
                q(scaled(*p, eo, C{-0.5, 0}), ref::scale(o, -0.5), es, s);
                p->decRef(es);
            }
            if (n <= 2) {
                for (std::size_t c = 1; c < ipow(4, 1ULL << n); ++c) {
                    const auto s = vecFrom(c, ni, L4);
                    q(eo, o, p->makeStateFromVector(cvec(s)), s);
                }
            }
            expect(mat(eo, ni), o, "operator after taking expectation values");
            p->decRef(eo);
            nl.check("expectation value");
        });
    }
    void outcomes() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 6 : 5, "n-1");
        const unsigned pa  = mc::choose(NVP, "state");
        const unsigned cfg = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            const auto ni = static_cast<int>(n);
            auto       p  = std::make_unique<P>(n);
            const std::size_t N = 1ULL << n;
            for (unsigned f = 0; f < 8; ++f) {
                const auto a = ref::scale(vecPat(ni, pa), F[f]);
                const auto e = scaled(*p, p->makeStateFromVector(cvec(vecPat(ni, pa))), F[f]);
                // every subset of listed outcomes for small registers, otherwise all single ones and all prefixes
                const std::size_t subsets = n <= 3 ? 1ULL << N : 2 * N;
                for (std::size_t s = 0; s < subsets; ++s) {
                    dd::ProbabilityVector pr;
                    double                want = 0;
                    for (std::size_t i = 0; i < N; ++i) {
                        const bool in = n <= 3 ? ((s >> i) & 1U) != 0 : (s < N ? i == s : i <= s - N);
                        if (in) {
                            const double x = (i % 3 == 2 ? 0. : 0.01 * static_cast<double>(i * i % 7 + 1));
                            pr[i]          = x;
                            want += std::abs(a[i]) * std::sqrt(x);
                        }
                    }
                    expect(C{p->fidelityOfMeasurementOutcomes(e, pr), 0}, C{want, 0}, "fidelity of measurement outcomes", 1e-9 * std::max(1., want));
                }
            }
            if (n <= 2) {
                for (std::size_t c = 0; c < ipow(n == 1 ? 9 : 5, N); ++c) {
                    const auto            a = vecFrom(c, ni, n == 1 ? L9 : L5);
                    const auto            e = p->makeStateFromVector(cvec(a));
                    dd::ProbabilityVector pr;
                    double                want = 0;
                    for (std::size_t i = 0; i < N; ++i) {
                        pr[i] = 0.1 + 0.2 * static_cast<double>(i);
                        want += std::abs(a[i]) * std::sqrt(pr[i]);
                    }
                    expect(C{p->fidelityOfMeasurementOutcomes(e, pr), 0}, C{want, 0}, "fidelity of measurement outcomes of " + ref::str(a));
                }
            }
        });
    }
    // scalars; product states on up to 128 qubits: the inner product is the product of the 2-dimensional ones
    void wide() {
        const unsigned sizes[] = {0, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned a       = mc::choose(4, "first");
        const unsigned b       = mc::choose(4, "second");
        auto           p       = std::make_unique<Pkg<Mid>>(std::max(n, 1U));
        if (n == 0) {
            for (const auto& c: L9) {
                for (const auto& d: L9) {
                    const auto x = dd::vEdge::terminal(p->cn.lookup(c.real(), c.imag()));
                    const auto y = dd::vEdge::terminal(p->cn.lookup(d.real(), d.imag()));
                    expect(cv(p->innerProduct(x, y)), ref::cmul(std::conj(c), d), "inner product of scalars");
                }
            }
            return;
        }
        const auto nq = static_cast<dd::QubitCount>(n);
        const dd::BasisStates B[] = {dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus, dd::BasisStates::minus, dd::BasisStates::right, dd::BasisStates::left};
        const V               W[] = {{1, 0}, {0, 1}, {S2, S2}, {S2, -S2}, {S2, C{0, S2}}, {S2, C{0, -S2}}};
        auto sel = [&](unsigned k, unsigned q) -> unsigned {
            switch (k) {
                case 0: return q % 9 == 4 ? 2 : 0;
                case 1: return q % 11 == 3 ? 4 : (q % 2 == 0 ? 0 : 0);
                case 2: return q % 7 == 5 ? 3 : 0;
                default: return q == n - 1 ? 5 : 0;
            }
        };
        std::vector<dd::BasisStates> x;
        std::vector<dd::BasisStates> y;
        C                            w{1, 0};
        for (unsigned q = 0; q < n; ++q) {
            x.push_back(B[sel(a, q)]);
            y.push_back(B[sel(b, q)]);
            w = ref::cmul(w, ref::inner(W[sel(a, q)], W[sel(b, q)]));
        }
        const auto ex = p->makeBasisState(nq, x);
        const auto ey = p->makeBasisState(nq, y);
        for (unsigned r = 0; r < 2; ++r) {
            expect(cv(p->innerProduct(ex, ey)), w, "inner product on " + std::to_string(n) + " qubits");
            expect(cv(p->innerProduct(ey, ex)), std::conj(w), "inner product on " + std::to_string(n) + " qubits");
            expect(cv(p->innerProduct(scaled(*p, ex, C{0, 0.5}), ey)), ref::cmul(C{0, -0.5}, w), "scaled inner product on " + std::to_string(n) + " qubits");
            expect(C{p->fidelity(ex, ey), 0}, C{std::norm(w), 0}, "fidelity on " + std::to_string(n) + " qubits");
        }
        // measurement outcomes: an index names the outcomes in which all qubits above the 64th are zero
        if (a == b) {
            double     p0  = 1;
            const auto one = static_cast<unsigned>(std::min(n, 64U) - 1 - (a + n) % 3);
            double     p1  = 1;
            for (unsigned q = 0; q < n; ++q) {
                p0 *= std::abs(W[sel(a, q)][0]);
                p1 *= std::abs(W[sel(a, q)][q == one ? 1 : 0]);
            }
            std::vector<bool> bits(n, false);
            bits[n - 1]     = true;
            const auto  msb = p->makeBasisState(nq, bits);
            for (unsigned k = 0; k < 3; ++k) {
                dd::ProbabilityVector pr;
                double                want = 0;
                if (k != 1) {
                    pr[0] = 0.25;
                    want += 0.5 * p0;
                }
                if (k != 0) {
                    pr[1ULL << one] = 0.09;
                    want += 0.3 * p1;
                }
                expect(C{p->fidelityOfMeasurementOutcomes(ex, pr), 0}, C{want, 0}, "fidelity of measurement outcomes on " + std::to_string(n) + " qubits");
                dd::ProbabilityVector all{{0, 0.04}};
                for (unsigned q = 0; q < std::min(n, 64U); ++q) {
                    all[1ULL << q] = 0.04;
                }
                expect(C{p->fidelityOfMeasurementOutcomes(msb, all), 0}, C{n > 64 ? 0. : 0.2, 0}, "fidelity of measurement outcomes of the highest qubit of " + std::to_string(n));
            }
        }
        // expectation of Z on one qubit
        for (unsigned q = 0; q < n; q += 5) {
            const auto g = p->makeGateDD(dd::Zmat, nq, static_cast<dd::Qubit>(q));
            p->incRef(g);
            p->incRef(ex);
            const auto& l = W[sel(a, q)];
            expect(C{p->expectationValue(g, ex), 0}, C{std::norm(l[0]) - std::norm(l[1]), 0}, "expectation value on " + std::to_string(n) + " qubits");
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C12", argc, argv,
                   {{"all-1-qubit-pairs", 3, false, one},
                    {"all-2-qubit-pairs", 3, false, two},
                    {"structured-and-scaled", 4, false, shapes},
                    {"proportional-halves", 3, false, shared},
                    {"expectation-values", 4, false, expectation},
                    {"measurement-outcomes", 3, false, outcomes},
                    {"scalars-and-wide-registers", 3, false, wide}},
                   {"all ordered pairs of 2-vectors over 9 letters and of 2-qubit vectors over 5 letters; 14x14 patterns up to 6 (8) qubits with 8 scale factors on both; vectors with proportional halves; 10 hermitian operators up to 4 (5) qubits with all pattern states and all 2-qubit states over 4 letters; every subset of listed outcomes up to 3 qubits, single outcomes and prefixes up to 5 (6); registers up to 128 qubits; every question in both argument orders and repeated; small and normal tables",
                    {"amplitudes are taken from finite alphabets", "dense reference in mc/ref.hpp"}});
}
