// C09: addition equals the dense sum.
#include "ddx.hpp"
using namespace ddx;
namespace {
    // every pair of 2-vectors over nine letters; every pair of 2x2 matrices over five letters (first operand x all)
    void one() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned hi  = mc::choose(25, "first operand");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(1);
            warm(*p, 1, w);
            NoLeak<P> nl(*p);
            for (std::size_t x = hi; x < 81; x += 25) {
                const auto a  = vecFrom(x, 1, L9);
                const auto ea = p->makeStateFromVector(cvec(a));
                for (std::size_t y = 0; y < 81; ++y) {
                    const auto b  = vecFrom(y, 1, L9);
                    const auto eb = p->makeStateFromVector(cvec(b));
                    expect(vec(p->add(ea, eb), 1), ref::add(a, b), "sum of " + ref::str(a) + " and " + ref::str(b));
                    expect(vec(p->add(eb, ea), 1), ref::add(a, b), "sum of " + ref::str(b) + " and " + ref::str(a));
                }
            }
            for (std::size_t lo = 0; lo < 25; ++lo) {
                const auto a  = matFrom(hi * 25 + lo, L5);
                const auto ea = p->makeDDFromMatrix(cmat(a));
                p->incRef(ea);
                const unsigned step = mc::thorough() ? 1 : 4; // quick: the environments share the second operands
                for (std::size_t y = mc::thorough() ? 0 : w; y < 625; y += step) {
                    const auto b  = matFrom(y, L5);
                    const auto eb = p->makeDDFromMatrix(cmat(b));
                    expect(mat(p->add(ea, eb), 1), ref::add(a, b), "sum of " + ref::str(a) + " and " + ref::str(b));
                }
                p->decRef(ea);
                p->garbageCollect(true);
                mc::alive();
            }
            nl.check("addition");
        });
    }
    // every pair of 2-qubit vectors over {0,1,-1,i}
    void twoVec() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(2, "env") * 3;
        const unsigned hi  = mc::choose(64, "first operand");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2);
            warm(*p, 2, w);
            NoLeak<P> nl(*p);
            for (std::size_t x = hi; x < 256; x += 64) {
                const auto a  = vecFrom(x, 2, L4);
                const auto ea = p->makeStateFromVector(cvec(a));
                for (std::size_t y = 0; y < 256; ++y) {
                    const auto b  = vecFrom((y * 37 + x) % 256, 2, L4);
                    const auto eb = p->makeStateFromVector(cvec(b));
                    expect(vec(p->add(ea, eb), 2), ref::add(a, b), "sum of " + ref::str(a) + " and " + ref::str(b));
                    if (y % 16 == 7) {
                        // a scaled by -1 cancels, by i mixes
                        expect(vec(p->add(ea, scaled(*p, ea, C{-1, 0})), 2), V(4), "a vector minus itself");
                        expect(vec(p->add(scaled(*p, eb, C{0, 2}), ea), 2), ref::add(a, ref::scale(b, C{0, 2})), "scaled sum");
                    }
                }
                p->garbageCollect(true);
            }
            nl.check("addition");
        });
    }
    void twoMat() {
        const unsigned k   = mc::thorough() ? 6 : 5;
        const unsigned n4  = k * k * k * k;
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned hi  = mc::choose(k * k * k, "first operand");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2);
            warm(*p, 2, hi % 4);
            NoLeak<P> nl(*p);
            for (unsigned lo = 0; lo < k; ++lo) {
                const auto a  = mat4(hi * k + lo, k);
                const auto ea = p->makeDDFromMatrix(cmat(a));
                p->incRef(ea);
                for (unsigned y = 0; y < n4; ++y) {
                    const auto b  = mat4((y * 7 + hi) % n4, k);
                    const auto eb = p->makeDDFromMatrix(cmat(b));
                    expect(mat(p->add(ea, eb), 2), ref::add(a, b), "sum of " + ref::str(a) + " and " + ref::str(b));
                }
                p->decRef(ea);
                p->garbageCollect(true);
                mc::alive();
            }
            nl.check("addition");
        });
    }
    // the sums are the same whatever root weights the operands carry; partial sums, repeated sums, chains
    void shapes() {
        const unsigned n   = 1 + mc::choose(mc::thorough() ? 6 : 5, "n-1");
        const unsigned pa  = mc::choose(NMP, "first");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const C        F[] = {{1, 0}, {-1, 0}, {0, 1}, {0.5, 0}, {3, -4}, {1e-4, 0}, {0, 0}, {1, 1e-3}};
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(std::max(n, 3U));
            warm(*p, 3, w);
            NoLeak<P>  nl(*p);
            const auto ni = static_cast<int>(n);
            for (unsigned round = 0; round < 2; ++round) {
                if (n <= 4) {
                    const auto a  = matPat(ni, pa);
                    const auto ea = p->makeDDFromMatrix(cmat(a));
                    p->incRef(ea);
                    for (unsigned pb = 0; pb < NMP; ++pb) {
                        const auto b  = matPat(ni, pb);
                        const auto eb = p->makeDDFromMatrix(cmat(b));
                        for (unsigned f = 0; f < 8; f += n > 2 ? 2 : 1) {
                            const C c = F[f];
                            const C d = F[(f * 3 + pb) % 8];
                            const auto want = ref::add(ref::scale(a, c), ref::scale(b, d));
                            expect(mat(p->add(scaled(*p, ea, c), scaled(*p, eb, d)), ni), want, "sum of matrix patterns " + std::to_string(pa) + "*" + ref::str(c) + " and " + std::to_string(pb) + "*" + ref::str(d));
                        }
                    }
                    // chain: sum of all patterns
                    auto acc = ea;
                    auto den = a;
                    for (unsigned pb = 0; pb < NMP; ++pb) {
                        const auto b = matPat(ni, pb);
                        acc          = p->add(acc, p->makeDDFromMatrix(cmat(b)));
                        den          = ref::add(den, b);
                    }
                    expect(mat(acc, ni), den, "sum of all matrix patterns");
                    p->decRef(ea);
                }
                if (pa < NVP) {
                    const auto a  = vecPat(ni, pa);
                    const auto ea = p->makeStateFromVector(cvec(a));
                    p->incRef(ea);
                    for (unsigned pb = 0; pb < NVP; ++pb) {
                        const auto b  = vecPat(ni, pb);
                        const auto eb = p->makeStateFromVector(cvec(b));
                        for (unsigned f = 0; f < 8; ++f) {
                            const C c = F[f];
                            const C d = F[(f * 5 + pb) % 8];
                            const auto want = ref::add(ref::scale(a, c), ref::scale(b, d));
                            expect(vec(p->add(scaled(*p, ea, c), scaled(*p, eb, d)), ni), want, "sum of vector patterns " + std::to_string(pa) + "*" + ref::str(c) + " and " + std::to_string(pb) + "*" + ref::str(d));
                        }
                    }
                    auto acc = ea;
                    auto den = a;
                    for (unsigned pb = 0; pb < NVP; ++pb) {
                        const auto b = vecPat(ni, pb);
                        acc          = p->add(p->makeStateFromVector(cvec(b)), acc);
                        den          = ref::add(den, b);
                    }
                    expect(vec(acc, ni), den, "sum of all vector patterns");
                    p->decRef(ea);
                }
                nl.check("addition");
                p->garbageCollect(true);
            }
        });
    }
    // operands that share nodes below with different weights: all block combinations {a*v | b*v | u}
    void shared() {
        const unsigned n   = 2 + mc::choose(3, "n-2");
        const unsigned pv  = mc::choose(NVP, "lower block");
        const unsigned cfg = mc::choose(2, "cfg");
        const C        F[] = {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0.25, 0}, {-2, 1}};
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(n);
            const auto lo = vecPat(static_cast<int>(n) - 1, pv);
            auto make = [&](unsigned c) {
                V v = ref::scale(lo, F[c % 6]);
                V h = ref::scale(lo, F[c / 6]);
                v.insert(v.end(), h.begin(), h.end());
                return v;
            };
            for (unsigned x = 0; x < 36; ++x) {
                const auto a  = make(x);
                const auto ea = p->makeStateFromVector(cvec(a));
                for (unsigned y = 0; y < 36; ++y) {
                    const auto b  = make(y);
                    const auto eb = p->makeStateFromVector(cvec(b));
                    expect(vec(p->add(ea, eb), static_cast<int>(n)), ref::add(a, b), "sum of vectors with proportional halves");
                }
            }
            // the same for matrices with proportional quadrants
            const auto lm = matPat(static_cast<int>(n) - 1, pv);
            auto mk = [&](unsigned c) { return blocks(ref::scale(lm, F[c % 6]), ref::scale(lm, F[c / 6 % 6]), ref::scale(lm, F[(c / 36 + c) % 6]), ref::scale(lm, F[(c / 6 + 2 * c) % 6])); };
            if (n <= 3) {
                for (unsigned x = 0; x < 216; x += 5) {
                    const auto a  = mk(x);
                    const auto ea = p->makeDDFromMatrix(cmat(a));
                    for (unsigned y = x % 3; y < 216; y += 3) {
                        const auto b = mk(y);
                        expect(mat(p->add(ea, p->makeDDFromMatrix(cmat(b))), static_cast<int>(n)), ref::add(a, b), "sum of matrices with proportional quadrants");
                    }
                }
            }
        });
    }
    // scalars, and sums on registers up to 128 qubits read by path
    void wide() {
        const unsigned sizes[] = {0, 16, 33, 63, 64, 65, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned step    = mc::choose(3, "stride");
        const auto     nq      = static_cast<dd::QubitCount>(n);
        auto           p       = std::make_unique<Pkg<Mid>>(std::max(n, 1U));
        if (n == 0) {
            for (const auto& c: L9) {
                for (const auto& d: L9) {
                    const auto em = dd::mEdge::terminal(p->cn.lookup(c.real(), c.imag()));
                    const auto en = dd::mEdge::terminal(p->cn.lookup(d.real(), d.imag()));
                    expect(mat(p->add(em, en), 0).a, V{c + d}, "scalar sum");
                    const auto vm = dd::vEdge::terminal(p->cn.lookup(c.real(), c.imag()));
                    const auto vn = dd::vEdge::terminal(p->cn.lookup(d.real(), d.imag()));
                    expect(vec(p->add(vm, vn), 0), V{c + d}, "scalar sum");
                }
            }
            return;
        }
        // W-like state: sum over basis states with one qubit set, amplitude depends on the qubit
        const unsigned s   = step == 0 ? 1 : (step == 1 ? 7 : 13);
        auto           acc = dd::vEdge::zero;
        for (unsigned k = 0; k < n; k += s) {
            std::vector<bool> b(n);
            b[k] = true;
            acc  = p->add(acc, scaled(*p, p->makeBasisState(nq, b), C{0.01 * (k + 1), -0.02}));
        }
        for (unsigned k = 0; k < n; ++k) {
            std::string x(n, '0');
            x[k]         = '1';
            const auto a = cv(p->getValueByPath(acc, x));
            const C    w = k % s == 0 ? C{0.01 * (k + 1), -0.02} : C{0, 0};
            mc::op();
            mc::state(mc::mix(ref::hash(a), n));
            MC_CHECK(ref::close(a, w), "sum of basis states on " << n << " qubits: amplitude of qubit " << k << " is " << ref::str(a) << ", expected " << ref::str(w));
        }
        auto m = p->makeIdent(nq);
        for (unsigned k = 0; k < n; k += s) {
            m = p->add(m, p->makeGateDD(dd::Zmat, nq, static_cast<dd::Qubit>(k)));
        }
        const unsigned cnt = (n + s - 1) / s;
        for (unsigned k = 0; k <= n; ++k) {
            std::string x(n, '0');
            if (k < n) {
                x[k] = '3';
            }
            const double w = 1. + cnt - (k < n && k % s == 0 ? 2 : 0);
            const auto   a = cv(p->getValueByPath(m, x));
            MC_CHECK(ref::close(a, C{w, 0}, 1e-8), "sum of Z operators on " << n << " qubits: entry " << x << " is " << ref::str(a) << ", expected " << w);
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C09", argc, argv,
                   {{"all-1-qubit-operands", 3, false, one},
                    {"all-2-qubit-vectors", 3, false, twoVec},
                    {"2-qubit-block-matrices", 2, false, twoMat},
                    {"structured-and-scaled-operands", 4, false, shapes},
                    {"shared-nodes", 3, false, shared},
                    {"scalars-and-wide-registers", 2, false, wide}},
                   {"all ordered pairs of 2-vectors over 9 letters, of 2x2 matrices over 5 letters, of 2-qubit vectors over 4 letters, of 5^4 (thorough 6^4) block matrices; 16 matrix and 14 vector patterns up to 5 (6) qubits with 8 scale factors; operands with proportional halves; registers up to 128 qubits; small and normal tables; fresh, used and collected packages",
                    {"entries are taken from finite alphabets", "dense reference in mc/ref.hpp"}});
}
