// C08: multiplication agrees with dense matrix products.
#include "ddx.hpp"
using namespace ddx;
namespace {
    std::size_t ST(std::size_t quick, std::size_t deep) { return mc::thorough() ? deep : quick; }
    // all 2x2 matrices x all 2-vectors and all pairs of 2x2 matrices over five letters
    void one() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        const unsigned hi  = mc::choose(25, "first operand");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(1);
            warm(*p, 1, w);
            NoLeak<P> nl(*p);
            for (std::size_t lo = 0; lo < 25; ++lo) {
                const auto a  = matFrom(hi * 25 + lo, L5);
                const auto ea = p->makeDDFromMatrix(cmat(a));
                for (std::size_t y = 0; y < 25; ++y) {
                    const auto v = vecFrom(y, 1, L5);
                    expect(vec(p->multiply(ea, p->makeStateFromVector(cvec(v))), 1), ref::mul(a, v), "product of " + ref::str(a) + " and " + ref::str(v));
                }
                for (std::size_t y = (lo + w) % 2; y < 625; y += ST(4, 1)) {
                    const auto b  = matFrom(y, L5);
                    const auto eb = p->makeDDFromMatrix(cmat(b));
                    expect(mat(p->multiply(ea, eb), 1), ref::mul(a, b), "product of " + ref::str(a) + " and " + ref::str(b));
                    if (y % 100 == 3) {
                        expect(mat(p->multiply(eb, ea), 1), ref::mul(b, a), "product of " + ref::str(b) + " and " + ref::str(a));
                        expect(mat(p->multiply(ea, eb), 1), ref::mul(a, b), "repeated product of " + ref::str(a) + " and " + ref::str(b));
                    }
                }
                nl.check("multiplication");
            }
        });
    }
    // 4x4 block matrices x all vectors over {0,1,-1,i}^4
    void twoVec() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(2, "env") * 3;
        const unsigned hi  = mc::choose(49, "first operand");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2);
            warm(*p, 2, w);
            NoLeak<P> nl(*p);
            for (std::size_t lo = 0; lo < 49; ++lo) {
                const auto a  = mat4(hi * 49 + lo, 7);
                const auto ea = p->makeDDFromMatrix(cmat(a));
                for (std::size_t y = (lo + hi) % ST(4, 1); y < 256; y += ST(4, 1)) {
                    const auto v  = vecFrom(y, 2, L4);
                    const auto ev = p->makeStateFromVector(cvec(v));
                    expect(vec(p->multiply(ea, ev), 2), ref::mul(a, v), "product of " + ref::str(a) + " and " + ref::str(v));
                }
                nl.check("matrix-vector multiplication");
                mc::alive();
            }
        });
    }
    // pairs of 4x4 block matrices
    void twoMat() {
        const std::size_t k   = ST(4, 6);
        const unsigned    cfg = mc::choose(2, "cfg");
        const unsigned    w   = mc::choose(2, "env") * 3;
        const unsigned    hi  = mc::choose(static_cast<unsigned>(k * k), "first operand");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(2);
            warm(*p, 2, w);
            NoLeak<P> nl(*p);
            for (std::size_t lo = 0; lo < k * k; ++lo) {
                const auto a  = mat4(hi * k * k + lo, k);
                const auto ea = p->makeDDFromMatrix(cmat(a));
                p->incRef(ea);
                for (std::size_t y = 0; y < k * k * k * k; ++y) {
                    const auto b  = mat4((y * 7 + hi) % (k * k * k * k), k);
                    const auto eb = p->makeDDFromMatrix(cmat(b));
                    expect(mat(p->multiply(ea, eb), 2), ref::mul(a, b), "product of " + ref::str(a) + " and " + ref::str(b));
                }
                nl.check("matrix-matrix multiplication");
                p->decRef(ea);
                if (lo % 4 == 3) {
                    p->garbageCollect(true);
                }
                mc::alive();
            }
        });
    }
    const C FAC[] = {{1, 0}, {-1, 0}, {0, 1}, {0.5, 0}, {3, -4}, {1e-4, 0}, {0, 0}};
    // larger structured operands, scaled operands, offsets, repeated in the same package
    void shapes() {
        const unsigned n     = 1 + mc::choose(static_cast<unsigned>(ST(4, 5)), "n-1");
        const unsigned pa    = mc::choose(NMP, "first");
        const unsigned cfg   = mc::choose(2, "cfg");
        const unsigned w     = mc::choose(4, "env");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(std::max(n, 3U));
            warm(*p, 3, w);
            NoLeak<P>  nl(*p);
            const auto ni = static_cast<int>(n);
            const auto a  = matPat(ni, pa);
            const auto ea = p->makeDDFromMatrix(cmat(a));
            for (unsigned round = 0; round < 2; ++round) {
                for (unsigned pb = 0; pb < NMP; ++pb) {
                    const auto b  = matPat(ni, pb);
                    const auto eb = p->makeDDFromMatrix(cmat(b));
                    for (unsigned f = (pa + pb) % 2; f < 7; f += 2) {
                        const C    c = FAC[f];
                        const C    d = FAC[(f * 3 + pb) % 7];
                        const auto x = scaled(*p, ea, c);
                        const auto y = scaled(*p, eb, d);
                        const auto want = ref::mul(ref::scale(a, c), ref::scale(b, d));
                        expect(mat(p->multiply(x, y), ni), want, "product of patterns " + std::to_string(pa) + "," + std::to_string(pb) + " times " + ref::str(c) + ", " + ref::str(d), 1e-9 * scaleOf(want.a));
                    }
                }
                for (unsigned pv = 0; pv < NVP; ++pv) {
                    const auto v  = vecPat(ni, pv);
                    const auto ev = p->makeStateFromVector(cvec(v));
                    for (unsigned f = (pa + pv) % 2; f < 7; f += 2) {
                        const C    c = FAC[(f * 5 + pa) % 7];
                        const C    d = FAC[f];
                        const auto want = ref::mul(ref::scale(a, c), ref::scale(v, d));
                        expect(vec(p->multiply(scaled(*p, ea, c), scaled(*p, ev, d)), ni), want, "product of matrix pattern " + std::to_string(pa) + " and vector pattern " + std::to_string(pv), 1e-9 * scaleOf(want));
                    }
                }
                nl.check("multiplication");
                if (round == 0) {
                    p->incRef(ea);
                    p->garbageCollect(true);
                }
            }
        });
    }
    // scalars
    void scalars() {
        auto           p = std::make_unique<Pkg<Mid>>(2);
        const unsigned i = mc::choose(7, "left");
        for (const auto& d: FAC) {
            const C    c  = FAC[i];
            const auto em = dd::mEdge{dd::mNode::terminal, p->cn.lookup(c.real(), c.imag())};
            const auto ev = dd::vEdge{dd::vNode::terminal, p->cn.lookup(d.real(), d.imag())};
            const auto en = dd::mEdge{dd::mNode::terminal, p->cn.lookup(d.real(), d.imag())};
            expect(vec(p->multiply(em, ev), 0), V{ref::cmul(c, d)}, "scalar product");
            expect(mat(p->multiply(em, en), 0).a, V{ref::cmul(c, d)}, "scalar product");
        }
    }
    // registers that start above qubit 0
    void offsets() {
        const unsigned n     = 1 + mc::choose(3, "n-1");
        const unsigned start = mc::choose(4, "start");
        const unsigned a     = mc::choose(12, "first gate");
        const unsigned cfg   = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(n + start);
            const auto ni = static_cast<int>(n);
            auto gate = [&](unsigned k, M& m) {
                const C g[4][4] = {{0, 1, 1, 0}, {S2, S2, S2, -S2}, {1, 2, 3, C{0, 4}}, {1, 0, 0, C{0, 1}}};
                const int tq = static_cast<int>(k / 4) % ni;
                const std::vector<ref::Ctl> c = ni > 1 && k % 3 == 1 ? std::vector<ref::Ctl>{{(tq + 1) % ni, k % 2 == 0}} : std::vector<ref::Ctl>{};
                m = ref::gate(ni, g[k % 4], tq, c);
                auto abs = c;
                for (auto& x: abs) {
                    x.q += static_cast<int>(start);
                }
                return p->makeGateDD(gm(g[k % 4]), static_cast<dd::QubitCount>(n), ctls(abs), static_cast<dd::Qubit>(tq + static_cast<int>(start)), start);
            };
            M ma, mb;
            const auto ea = gate(a, ma);
            for (unsigned b = 0; b < 12; ++b) {
                const auto eb = gate(b, mb);
                const auto pr = p->multiply(ea, eb, static_cast<dd::Qubit>(start));
                expect(mat(pr, ni, static_cast<int>(start)), ref::mul(ma, mb), "product of gates " + std::to_string(a) + "," + std::to_string(b) + " on " + std::to_string(n) + " qubits from qubit " + std::to_string(start));
                for (unsigned s = 0; s < (1U << n); ++s) {
                    std::vector<bool> bits(n + start);
                    for (unsigned q = 0; q < n; ++q) {
                        bits[start + q] = ((s >> q) & 1U) != 0;
                    }
                    V v(1ULL << n);
                    v[s]          = 1;
                    const auto ev = p->makeBasisState(static_cast<dd::QubitCount>(n), bits, start);
                    expect(vec(p->multiply(pr, ev, static_cast<dd::Qubit>(start)), ni, static_cast<int>(start)), ref::mul(ref::mul(ma, mb), v), "gates " + std::to_string(a) + "," + std::to_string(b) + " applied to basis state " + std::to_string(s) + " from qubit " + std::to_string(start));
                }
            }
        });
    }
    // every circuit up to a depth, run as a simulator does (reference counting, collection at every step or never)
    void circuits() {
        const unsigned n   = 2 + mc::choose(2, "n-2");
        const unsigned col = mc::choose(3, "collection");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned g1  = mc::choose(10, "gate 1");
        const unsigned g2  = mc::choose(10, "gate 2");
        const unsigned dep = static_cast<unsigned>(ST(5, 6));
        const auto     ni  = static_cast<int>(n);
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(n);
            std::vector<dd::mEdge> g;
            std::vector<M>         m;
            auto                   add = [&](const C* k, int tq, const std::vector<ref::Ctl>& c) {
                g.push_back(p->makeGateDD(gm(k), static_cast<dd::QubitCount>(n), ctls(c), static_cast<dd::Qubit>(tq)));
                p->incRef(g.back());
                m.push_back(ref::gate(ni, k, tq, c));
            };
            const C h[4] = {S2, S2, S2, -S2}, x[4] = {0, 1, 1, 0}, ry[4] = {0.8, -0.6, 0.6, 0.8}, tg[4] = {1, 0, 0, std::polar(1., M_PI / 4)};
            add(h, 0, {});
            add(h, ni - 1, {});
            add(tg, 0, {});
            add(tg, ni - 1, {{0, false}});
            add(x, 1, {{0, true}});
            add(x, 0, {{ni - 1, true}});
            add(x, ni - 1, {{0, false}});
            add(ry, 0, {});
            add(ry, 1, {{ni == 3 ? 2 : 0, true}});
            add(x, 1, {});
            std::function<void(const dd::vEdge&, const V&, unsigned)> go = [&](const dd::vEdge& e, const V& v, unsigned d) {
                if (d == dep) {
                    return;
                }
                for (unsigned k = 0; k < 10; ++k) {
                    if ((d == 0 && k != g1) || (d == 1 && k != g2) || (d >= 3 && (k + g1 + g2) % 3 != 0 && !mc::thorough())) {
                        continue;
                    }
                    const auto r = p->multiply(g[k], e);
                    p->incRef(r);
                    if (col == 1 || (col == 2 && (k + d) % 3 == 0)) {
                        p->garbageCollect(col == 1);
                    }
                    const auto w = ref::mul(m[k], v);
                    expect(vec(r, ni), w, "state after gate " + std::to_string(k) + " at depth " + std::to_string(d));
                    go(r, w, d + 1);
                    p->decRef(r);
                }
                mc::alive();
            };
            const auto z = p->makeZeroState(static_cast<dd::QubitCount>(n));
            p->incRef(z);
            V v(1ULL << n);
            v[0] = 1;
            go(z, v, 0);
            // the whole circuit as one matrix, built left to right and right to left
            auto l = p->makeIdent(static_cast<dd::QubitCount>(n));
            auto r = l;
            M    lm = ref::ident(1ULL << n);
            M    rm = lm;
            for (const unsigned k: {g1, g2, (g1 + g2) % 10, 0U, 4U, 8U, g1}) {
                l  = p->multiply(g[k], l);
                lm = ref::mul(m[k], lm);
                r  = p->multiply(r, g[k]);
                rm = ref::mul(rm, m[k]);
                expect(mat(l, ni), lm, "circuit matrix");
                expect(mat(r, ni), rm, "circuit matrix (reversed)");
                p->incRef(l);
                p->incRef(r);
                p->garbageCollect(true);
            }
        });
    }
    // registers up to 128 qubits: layers of rotations, a GHZ chain and its inverse
    void wide() {
        const unsigned sizes[] = {16, 32, 33, 63, 64, 65, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned dir     = mc::choose(3, "direction");
        const auto     nq      = static_cast<dd::QubitCount>(n);
        auto           p       = std::make_unique<Pkg<Mid>>(n);
        auto           order   = [&](unsigned k) { return static_cast<dd::Qubit>(dir == 0 ? k : (dir == 1 ? n - 1 - k : (k * 37 + 5) % (n % 37 == 0 ? n - 1 : n))); };
        auto           amp     = [&](const dd::vEdge& e, const std::string& s) {
            const auto r = cv(p->getValueByPath(e, s));
            mc::op();
            mc::state(mc::mix(ref::hash(r), n * 8 + dir));
            return r;
        };
        auto v = p->makeZeroState(nq);
        if (dir == 2) {
            for (unsigned k = 0; k < n; ++k) {
                v = p->multiply(p->makeGateDD(k % 2 == 0 ? dd::Xmat : dd::Ymat, nq, static_cast<dd::Qubit>((k * 5) % n)), v);
            }
            int cnt[128] = {};
            C   ph       = 1;
            for (unsigned k = 0; k < n; ++k) {
                const unsigned q = (k * 5) % n;
                ph *= k % 2 == 0 ? C{1, 0} : (cnt[q] % 2 == 0 ? C{0, 1} : C{0, -1});
                ++cnt[q];
            }
            std::string s;
            for (unsigned q = 0; q < n; ++q) {
                s += cnt[q] % 2 != 0 ? '1' : '0';
            }
            const auto got = amp(v, s);
            MC_CHECK(ref::close(got, ph), "flips on " << n << " qubits: amplitude of " << s << " is " << ref::str(got) << ", expected " << ref::str(ph));
            return;
        }
        v = p->multiply(p->makeGateDD(dd::Hmat, nq, order(0)), v);
        for (unsigned k = 1; k < n; ++k) {
            v = p->multiply(p->makeGateDD(dd::Xmat, nq, dd::Control{order(k - 1)}, order(k)), v);
        }
        MC_CHECK(ref::close(amp(v, std::string(n, '0')), C{S2, 0}) && ref::close(amp(v, std::string(n, '1')), C{S2, 0}), "GHZ state on " << n << " qubits is wrong");
        for (unsigned k = 0; k < n; ++k) {
            std::string s(n, '0');
            s[k] = '1';
            MC_CHECK(ref::close(amp(v, s), C{0, 0}), "GHZ state on " << n << " qubits has amplitude at " << s);
        }
        for (unsigned k = n - 1; k > 0; --k) {
            v = p->multiply(p->makeGateDD(dd::Xmat, nq, dd::Control{order(k - 1)}, order(k)), v);
        }
        v = p->multiply(p->makeGateDD(dd::Hmat, nq, order(0)), v);
        MC_CHECK(ref::close(amp(v, std::string(n, '0')), C{1, 0}), "uncomputing the GHZ state on " << n << " qubits does not give the zero state");
        // a layer of rotations: product of cosines
        auto u = p->makeIdent(nq);
        for (unsigned k = 0; k < n; ++k) {
            u = p->multiply(p->makeGateDD(dd::RYmat(0.1 + 0.01 * k), nq, order(k)), u);
        }
        v = p->multiply(u, p->makeZeroState(nq));
        for (unsigned k = 0; k <= n; ++k) {
            std::string s(n, '0');
            double      want = 1;
            for (unsigned j = 0; j < n; ++j) {
                const double a = (0.1 + 0.01 * j) / 2;
                want *= j == k ? std::sin(a) : std::cos(a);
            }
            if (k < n) {
                s[static_cast<std::size_t>(order(k))] = '1';
            }
            const auto got = amp(v, s);
            MC_CHECK(std::abs(got.real() - want) < 1e-9 && std::abs(got.imag()) < 1e-9, "rotations on " << n << " qubits: amplitude of " << s << " is " << ref::str(got) << ", expected " << want);
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C08", argc, argv,
                   {{"all-1-qubit-operands", 3, false, one},
                    {"2-qubit-matrix-vector", 3, false, twoVec},
                    {"2-qubit-matrix-matrix", 3, false, twoMat},
                    {"structured-and-scaled-operands", 4, false, shapes},
                    {"scalars", 1, false, scalars},
                    {"offset-registers", 4, false, offsets},
                    {"all-circuits", 5, false, circuits},
                    {"wide-registers", 2, false, wide}},
                   {"all 2x2 matrices over 5 letters x all 2-vectors and pairs of them; all 7^4 block matrices x vectors over {0,1,-1,i}^4 (quick: every fourth); all pairs of 4^4 (thorough 6^4) block matrices; 16 matrix and 14 vector patterns up to 4 (5) qubits with 7 scale factors; offsets 0-3; all circuits of depth 5 (6) over 10 gates with three collection policies; GHZ chains and layers up to 128 qubits; small and normal tables; fresh, used and collected packages",
                    {"entries are taken from finite alphabets", "dense reference in mc/ref.hpp"}});
}
