// C10: Kronecker products and extension equal the dense tensor product.
#include "ddx.hpp"
using namespace ddx;
namespace {
    const C F[] = {{1, 0}, {-1, 0}, {0, 1}, {0.5, 0}, {3, -4}, {1e-3, 0}, {0, 0}};
    int     qubitsOf(const M& m) {
        int n = 0;
        while ((1ULL << n) < m.d) {
            ++n;
        }
        return n;
    }
    // every pair of one-qubit operands, and one- with two-qubit operands
    void one() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned hi  = mc::choose(25, "first operand");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            warm(*p, 2, w);
            NoLeak<P> nl(*p);
            const auto a1 = vecFrom(hi, 1, L5);
            const auto ea = p->makeStateFromVector(cvec(a1));
            for (std::size_t y = 0; y < 256; ++y) {
                if (y < 81) {
                    const auto b = vecFrom(y, 1, L9);
                    expect(vec(p->kronecker(ea, p->makeStateFromVector(cvec(b))), 2), ref::kron(a1, b), "Kronecker product of " + ref::str(a1) + " and " + ref::str(b));
                }
                const auto b  = vecFrom(y, 2, L4);
                const auto eb = p->makeStateFromVector(cvec(b));
                expect(vec(p->kronecker(ea, eb), 3), ref::kron(a1, b), "Kronecker product of " + ref::str(a1) + " and " + ref::str(b));
                expect(vec(p->kronecker(eb, ea), 3), ref::kron(b, a1), "Kronecker product of " + ref::str(b) + " and " + ref::str(a1));
            }
            for (std::size_t lo = 0; lo < 25; ++lo) {
                const auto m  = matFrom(hi * 25 + lo, L5);
                const auto em = p->makeDDFromMatrix(cmat(m));
                for (std::size_t y = 0; y < 625; y += 2) {
                    const auto b = matFrom(y + hi % 2, L5);
                    if (y + hi % 2 >= 625) {
                        break;
                    }
                    expect(mat(p->kronecker(em, p->makeDDFromMatrix(cmat(b))), 2), ref::kron(m, b), "Kronecker product of " + ref::str(m) + " and " + ref::str(b));
                }
                mc::alive();
            }
            nl.check("Kronecker product");
        });
    }
    // block matrices against small factors on either side
    void two() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned hi  = mc::choose(64, "matrix");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(4);
            warm(*p, 3, hi % 4);
            NoLeak<P> nl(*p);
            for (std::size_t lo = 0; lo < 64; ++lo) {
                const auto a  = mat4(hi * 64 + lo, 8);
                const auto ea = p->makeDDFromMatrix(cmat(a));
                for (const auto& b: B8()) {
                    const auto eb = p->makeDDFromMatrix(cmat(b));
                    expect(mat(p->kronecker(ea, eb), 3), ref::kron(a, b), "Kronecker product of " + ref::str(a) + " and " + ref::str(b));
                    expect(mat(p->kronecker(eb, ea), 3), ref::kron(b, a), "Kronecker product of " + ref::str(b) + " and " + ref::str(a));
                }
            }
            nl.check("Kronecker product");
        });
    }
    // sizes 0..3 on both sides, structured operands, weights on both roots
    void shapes() {
        const unsigned na  = mc::choose(4, "first size");
        const unsigned nb  = mc::choose(4, "second size");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned pa  = mc::choose(NMP, "first pattern");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(std::max(na + nb, 3U));
            warm(*p, 3, w);
            NoLeak<P>  nl(*p);
            const auto n = static_cast<int>(na + nb);
            for (unsigned round = 0; round < 2; ++round) {
                const auto a  = matPat(static_cast<int>(na), pa);
                const auto ea = p->makeDDFromMatrix(cmat(a));
                p->incRef(ea);
                for (unsigned pb = 0; pb < NMP; ++pb) {
                    const auto b  = matPat(static_cast<int>(nb), pb);
                    const auto eb = p->makeDDFromMatrix(cmat(b));
                    for (unsigned f = (pa + pb + w) % 3; f < 7; f += 3) {
                        const C    c    = F[f];
                        const C    d    = F[(f + pb) % 7];
                        const auto want = ref::kron(ref::scale(a, c), ref::scale(b, d));
                        expect(mat(p->kronecker(scaled(*p, ea, c), scaled(*p, eb, d)), n), want, "Kronecker product of " + ref::str(c) + " * pattern " + std::to_string(pa) + " (" + std::to_string(na) + " qubits) and " + ref::str(d) + " * pattern " + std::to_string(pb) + " (" + std::to_string(nb) + " qubits)");
                    }
                }
                p->decRef(ea);
                if (pa < NVP) {
                    const auto v  = vecPat(static_cast<int>(na), pa);
                    const auto ev = p->makeStateFromVector(cvec(v));
                    p->incRef(ev);
                    for (unsigned pb = 0; pb < NVP; ++pb) {
                        const auto b  = vecPat(static_cast<int>(nb), pb);
                        const auto eb = p->makeStateFromVector(cvec(b));
                        for (unsigned f = 0; f < 7; f += 2) {
                            const C    c    = F[f];
                            const C    d    = F[(f + pb) % 7];
                            const auto want = ref::kron(ref::scale(v, c), ref::scale(b, d));
                            expect(vec(p->kronecker(scaled(*p, ev, c), scaled(*p, eb, d)), n), want, "Kronecker product of " + ref::str(c) + " * vector pattern " + std::to_string(pa) + " and " + ref::str(d) + " * vector pattern " + std::to_string(pb));
                        }
                    }
                    p->decRef(ev);
                }
                nl.check("Kronecker product");
                p->garbageCollect(true);
            }
        });
    }
    // first operand already on the upper qubits (incIdx = false)
    void placed() {
        const unsigned na = 1 + mc::choose(3, "first size");
        const unsigned nb = mc::choose(3, "second size");
        const unsigned g  = mc::choose(6, "first operand");
        const unsigned cfg = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(na + nb);
            const C gs[6][4] = {{0, 1, 1, 0}, {S2, S2, S2, -S2}, {1, 2, 3, 4}, {1, 0, 0, 1}, {C{0, 1}, 0, 0, C{0, 1}}, {1, 0, 0, 0}};
            for (unsigned q = 0; q < na; ++q) {
                const auto x = p->makeGateDD(gm(gs[g]), static_cast<dd::QubitCount>(na), static_cast<dd::Qubit>(nb + q), nb);
                const auto a = ref::gate(static_cast<int>(na), gs[g], static_cast<int>(q));
                for (unsigned pb = 0; pb < NMP; ++pb) {
                    const auto b = matPat(static_cast<int>(nb), pb);
                    expect(mat(p->kronecker(x, p->makeDDFromMatrix(cmat(b)), false), static_cast<int>(na + nb)), ref::kron(a, b), "Kronecker product of a gate already placed on qubits " + std::to_string(nb) + ".. and pattern " + std::to_string(pb));
                }
            }
            for (unsigned s = 0; s < (1U << na); ++s) {
                std::vector<bool> bits(na + nb);
                for (unsigned q = 0; q < na; ++q) {
                    bits[nb + q] = ((s >> q) & 1U) != 0;
                }
                V a(1ULL << na);
                a[s]         = 1;
                const auto x = p->makeBasisState(static_cast<dd::QubitCount>(na), bits, nb);
                for (unsigned pb = 0; pb < NVP; ++pb) {
                    const auto b = vecPat(static_cast<int>(nb), pb);
                    expect(vec(p->kronecker(x, p->makeStateFromVector(cvec(b)), false), static_cast<int>(na + nb)), ref::kron(a, b), "Kronecker product of a state already placed on the upper qubits");
                }
            }
        });
    }
    // extension by h identities on top and l at the bottom
    void extending() {
        const unsigned n   = 1 + mc::choose(3, "n-1");
        const unsigned h   = mc::choose(4, "above");
        const unsigned l   = mc::choose(4, "below");
        const unsigned w   = mc::choose(4, "env");
        const unsigned cfg = mc::choose(2, "cfg");
        if (n + h + l > 6) {
            mc::prune();
        }
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(std::max(n + h + l, 3U));
            warm(*p, 3, w);
            NoLeak<P> nl(*p);
            for (unsigned pa = 0; pa < NMP; ++pa) {
                const auto a  = matPat(static_cast<int>(n), pa);
                const auto ea = p->makeDDFromMatrix(cmat(a));
                for (unsigned f = 0; f < 2; ++f) {
                    const C    c    = F[(pa + 2 * f) % 6];
                    const auto want = ref::kron(ref::ident(1ULL << h), ref::kron(ref::scale(a, c), ref::ident(1ULL << l)));
                    const auto e    = l == 0 ? p->extend(scaled(*p, ea, c), static_cast<dd::Qubit>(h)) : p->extend(scaled(*p, ea, c), static_cast<dd::Qubit>(h), static_cast<dd::Qubit>(l));
                    if (pa == 12) { // the zero matrix stays the zero diagram
                        MC_CHECK(e.w == dd::Complex::zero, "extension of the zero matrix is not zero");
                        continue;
                    }
                    expect(mat(e, static_cast<int>(n + h + l)), want, "extension of " + ref::str(c) + " * pattern " + std::to_string(pa) + " by " + std::to_string(h) + " above and " + std::to_string(l) + " below");
                }
            }
            nl.check("extension");
        });
    }
    // products built up to 128 qubits, read by path
    void wide() {
        const unsigned sizes[] = {16, 33, 63, 64, 65, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned mode    = mc::choose(4, "mode");
        auto           p       = std::make_unique<Pkg<Mid>>(n);
        auto           letter  = [&](unsigned k) { return C{0.9 + 0.001 * k, 0.1}; };
        if (mode < 2) { // vector: factors appended on top (0) or at the bottom (1)
            auto e = dd::vEdge::one;
            for (unsigned k = 0; k < n; ++k) {
                const auto f = p->makeStateFromVector({letter(k), {0, 1}});
                e            = mode == 0 ? p->kronecker(f, e) : p->kronecker(e, f);
            }
            for (unsigned k = 0; k <= n; ++k) {
                std::string s(n, '0');
                C           want = 1;
                for (unsigned j = 0; j < n; ++j) {
                    want *= j == k ? C{0, 1} : letter(j);
                }
                if (k < n) {
                    s[mode == 0 ? k : n - 1 - k] = '1';
                }
                const auto a = cv(p->getValueByPath(e, s));
                mc::op();
                mc::state(mc::mix(ref::hash(a), n));
                MC_CHECK(ref::close(a, want, 1e-8), "Kronecker chain of " << n << " factors: amplitude " << k << " is " << ref::str(a) << ", expected " << ref::str(want));
            }
            return;
        }
        const auto g = p->makeDDFromMatrix({{0.6, {0, 0.8}}, {2, -0.5}});
        for (unsigned q = mode; q < n; q += 5) {
            const auto e = mode == 2 ? p->extend(g, static_cast<dd::Qubit>(n - 1 - q), static_cast<dd::Qubit>(q)) : p->kronecker(p->makeIdent(static_cast<dd::QubitCount>(n - 1 - q)), p->kronecker(g, p->makeIdent(static_cast<dd::QubitCount>(q))));
            const C    want[4] = {0.6, C{0, 0.8}, 2, -0.5};
            for (unsigned x = 0; x < 4; ++x) {
                for (const char bg: {'0', '3'}) {
                    std::string s(n, bg);
                    s[q]         = static_cast<char>('0' + x);
                    const auto a = cv(p->getValueByPath(e, s));
                    mc::op();
                    MC_CHECK(ref::close(a, want[x]), "gate extended to qubit " << q << " of " << n << ": entry " << x << " is " << ref::str(a) << ", expected " << ref::str(want[x]));
                    if (q > 0) {
                        s[q - 1]     = '1';
                        const auto z = cv(p->getValueByPath(e, s));
                        MC_CHECK(ref::close(z, C{0, 0}), "gate extended to qubit " << q << " of " << n << " acts on qubit " << q - 1);
                    }
                }
            }
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C10", argc, argv,
                   {{"all-1-qubit-operands", 3, false, one},
                    {"2-qubit-block-matrices", 2, false, two},
                    {"structured-and-scaled-operands", 5, false, shapes},
                    {"operands-already-placed", 4, false, placed},
                    {"extension", 5, false, extending},
                    {"wide-registers", 2, false, wide}},
                   {"all pairs of one-qubit vectors/matrices over 5-9 letters, one- with two-qubit vectors, 8^4 block matrices with 8 factors on either side; patterns of 0-3 qubits on both sides with 7 scale factors; extension by 0-3 identities above and below; operands already placed on upper qubits; chains up to 128 qubits; small and normal tables; fresh, used and collected packages",
                    {"entries are taken from finite alphabets", "dense reference in mc/ref.hpp"}});
}
