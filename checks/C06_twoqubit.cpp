// C06: two-qubit gates and the composite gates with controls.
#include "ddx.hpp"
using namespace ddx;
namespace {
    const C I{0, 1};
    using G4 = std::vector<C>;
    G4 g4(std::initializer_list<C> l) { return G4(l); }
    // Textbook matrices, index 2*bit(target0)+bit(target1)
    M pauli2(int a, int b) { // a on target0, b on target1; 1=X 2=Y 3=Z
        const M P[4] = {m2(1, 0, 0, 1), m2(0, 1, 1, 0), m2(0, -I, I, 0), m2(1, 0, 0, -1)};
        return ref::kron(P[a], P[b]);
    }
    M rot2(int a, int b, double th) { return ref::add(ref::scale(ref::ident(4), std::cos(th / 2)), ref::scale(pauli2(a, b), C{0, -std::sin(th / 2)})); }
    M m4(const G4& g) {
        M m(4);
        m.a = g;
        return m;
    }
    struct Arg {
        double th, be;
    };
    constexpr unsigned NB = 14;
    const char* const  BN[NB] = {"SWAP", "iSWAP", "iSWAPdg", "Peres", "Peresdg", "DCX", "ECR", "RXX", "RYY", "RZZ", "RZX", "XXminusYY", "XXplusYY", "matrix"};
    bool               hasAngle(unsigned b) { return b >= 7 && b <= 12; }
    const double       ANG[]  = {0.7, -2.1, 0, M_PI, M_PI / 2, 2 * M_PI, -M_PI / 4, 5.5, 1e-3, -7.3};
    M textbook(unsigned b, double th, double be) {
        const M cx01 = m4(g4({1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0})); // target0 controls target1
        const M cx10 = m4(g4({1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0})); // target1 controls target0
        const M x0   = ref::kron(m2(0, 1, 1, 0), m2(1, 0, 0, 1));
        const M x1   = ref::kron(m2(1, 0, 0, 1), m2(0, 1, 1, 0));
        const C c    = std::cos(th / 2);
        const C s    = std::sin(th / 2);
        switch (b) {
            case 0: return m4(g4({1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1}));
            case 1: return m4(g4({1, 0, 0, 0, 0, 0, I, 0, 0, I, 0, 0, 0, 0, 0, 1}));
            case 2: return m4(g4({1, 0, 0, 0, 0, 0, -I, 0, 0, -I, 0, 0, 0, 0, 0, 1}));
            case 3: return ref::mul(x1, cx10); // first target1 controls target0, then X on target1
            case 4: return ref::mul(cx10, x1);
            case 5: return ref::mul(cx01, cx10);
            case 6: { // exp(i pi/4 ZX-like) form: (IX - XY)/sqrt2 in the convention where target0 is the more significant bit: X0 * RZX(pi/2)-type echo
                const M a = rot2(3, 1, M_PI / 4);
                const M z = rot2(3, 1, -M_PI / 4);
                return ref::mul(z, ref::mul(x0, a));
            }
            case 7: return rot2(1, 1, th);
            case 8: return rot2(2, 2, th);
            case 9: return rot2(3, 3, th);
            case 10: return rot2(3, 1, th);
            case 11: return m4(g4({c, 0, 0, -I * s * std::exp(I * be), 0, 1, 0, 0, 0, 0, 1, 0, -I * s * std::exp(-I * be), 0, 0, c}));
            case 12: return m4(g4({1, 0, 0, 0, 0, c, -I * s * std::exp(I * be), 0, 0, -I * s * std::exp(-I * be), c, 0, 0, 0, 0, 1}));
            default: {
                M m(4);
                for (std::size_t i = 0; i < 16; ++i) {
                    m.a[i] = C{static_cast<double>(i) + 1, static_cast<double>(i % 5) - 2};
                }
                return m;
            }
        }
    }
    dd::TwoQubitGateMatrix tm(const M& m) {
        dd::TwoQubitGateMatrix r{};
        for (std::size_t i = 0; i < 4; ++i) {
            for (std::size_t j = 0; j < 4; ++j) {
                r[i][j] = dd::ComplexValue{m(i, j).real(), m(i, j).imag()};
            }
        }
        return r;
    }
    // ctl == nullptr: the variant without controls
    template<class P>
    dd::mEdge make(P& p, unsigned b, int n, int t0, int t1, int start, double th, double be, const dd::Controls* c) {
        const auto nq = static_cast<dd::QubitCount>(n);
        const auto a  = static_cast<dd::Qubit>(t0 + start);
        const auto d  = static_cast<dd::Qubit>(t1 + start);
        const auto s  = static_cast<std::size_t>(start);
        if (c == nullptr) {
            switch (b) {
                case 0: return p.makeSWAPDD(nq, a, d, s);
                case 1: return p.makeiSWAPDD(nq, a, d, s);
                case 2: return p.makeiSWAPinvDD(nq, a, d, s);
                case 3: return p.makePeresDD(nq, {}, a, d, s);
                case 4: return p.makePeresdagDD(nq, {}, a, d, s);
                case 5: return p.makeDCXDD(nq, a, d, s);
                case 6: return p.makeECRDD(nq, a, d, s);
                case 7: return p.makeRXXDD(nq, a, d, th, s);
                case 8: return p.makeRYYDD(nq, a, d, th, s);
                case 9: return p.makeRZZDD(nq, a, d, th, s);
                case 10: return p.makeRZXDD(nq, a, d, th, s);
                case 11: return p.makeXXMinusYYDD(nq, a, d, th, be, s);
                case 12: return p.makeXXPlusYYDD(nq, a, d, th, be, s);
                default: return p.makeTwoQubitGateDD(tm(textbook(13, 0, 0)), nq, a, d, s);
            }
        }
        switch (b) {
            case 0: return p.makeSWAPDD(nq, *c, a, d, s);
            case 1: return p.makeiSWAPDD(nq, *c, a, d, s);
            case 2: return p.makeiSWAPinvDD(nq, *c, a, d, s);
            case 3: return p.makePeresDD(nq, *c, a, d, s);
            case 4: return p.makePeresdagDD(nq, *c, a, d, s);
            case 5: return p.makeDCXDD(nq, *c, a, d, s);
            case 6: return p.makeECRDD(nq, *c, a, d, s);
            case 7: return p.makeRXXDD(nq, *c, a, d, th, s);
            case 8: return p.makeRYYDD(nq, *c, a, d, th, s);
            case 9: return p.makeRZZDD(nq, *c, a, d, th, s);
            case 10: return p.makeRZXDD(nq, *c, a, d, th, s);
            case 11: return p.makeXXMinusYYDD(nq, *c, a, d, th, be, s);
            default: return p.makeXXPlusYYDD(nq, *c, a, d, th, be, s);
        }
    }
    std::string name(unsigned b, int n, int t0, int t1, int start, double th, double be, const std::string& c) {
        std::ostringstream o;
        o << BN[b];
        if (hasAngle(b)) {
            o << "(" << th;
            if (b >= 11) {
                o << "," << be;
            }
            o << ")";
        }
        o << " on qubits " << t0 << "," << t1 << " of " << n << c << " offset " << start;
        return o.str();
    }
    // all builders x all ordered target pairs x all control assignments x offsets
    void builders() {
        const unsigned maxn  = mc::thorough() ? 6 : 4;
        const unsigned b     = mc::choose(NB, "builder");
        const unsigned n     = 2 + mc::choose(maxn - 1, "n-2");
        const unsigned t0    = mc::choose(n, "target0");
        unsigned       t1    = mc::choose(n - 1, "target1");
        const unsigned start = mc::choose(3, "start");
        const unsigned w     = mc::choose(3, "env");
        const unsigned cfg   = mc::choose(2, "cfg");
        t1 += t1 >= t0 ? 1 : 0;
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(n + start);
            warm(*p, static_cast<int>(std::min(n, 3U)), w);
            const auto ni = static_cast<int>(n);
            const auto a  = static_cast<int>(t0);
            const auto d  = static_cast<int>(t1);
            const auto s  = static_cast<int>(start);
            const unsigned na = hasAngle(b) ? (n <= 3 ? 10 : 4) : 1;
            for (unsigned k = 0; k < na; ++k) {
                for (unsigned bk = 0; bk < (b == 11 || b == 12 ? 3U : 1U); ++bk) {
                    const double th = ANG[k];
                    const double be = bk == 0 ? 0.9 : (bk == 1 ? 0. : -2.4);
                    const M      g  = textbook(b, th, be);
                    expect(mat(make(*p, b, ni, a, d, s, th, be, nullptr), ni, s), ref::gate2(ni, g.a.data(), a, d), name(b, ni, a, d, s, th, be, ""), 1e-10);
                    if (b == 13) {
                        continue;
                    }
                    for (std::size_t code = 0; code < pow3(ni - 2); ++code) {
                        auto c    = controlsFrom(code, ni, {a, d});
                        auto want = ref::gate2(ni, g.a.data(), a, d, c);
                        auto abs  = c;
                        for (auto& x: abs) {
                            x.q += s;
                        }
                        const auto cs   = ctls(abs);
                        const auto kept = cs;
                        const auto e    = make(*p, b, ni, a, d, s, th, be, &cs);
                        MC_CHECK(cs == kept, "the caller's control set is changed");
                        expect(mat(e, ni, s), want, name(b, ni, a, d, s, th, be, " controls " + str(c)), 1e-10);
                    }
                }
            }
        });
    }
    // builders used one after the other in one package: results do not depend on what was built before
    void sequences() {
        const unsigned b1  = mc::choose(NB, "first");
        const unsigned b2  = mc::choose(NB, "second");
        const unsigned cfg = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            auto p  = std::make_unique<P>(3);
            for (int x = 0; x < 6; ++x) {
                const int t0 = x / 2;
                const int t1 = (t0 + 1 + x % 2) % 3;
                for (int y = 0; y < 6; ++y) {
                    const int u0 = y / 2;
                    const int u1 = (u0 + 1 + y % 2) % 3;
                    const int uc = 3 - u0 - u1;
                    const M   g1 = textbook(b1, 0.7, 0.3);
                    const M   g2 = textbook(b2, -1.3, 1.1);
                    expect(mat(make(*p, b1, 3, t0, t1, 0, 0.7, 0.3, nullptr), 3), ref::gate2(3, g1.a.data(), t0, t1), name(b1, 3, t0, t1, 0, 0.7, 0.3, ""), 1e-10);
                    if (b2 == 13) {
                        expect(mat(make(*p, b2, 3, u0, u1, 0, -1.3, 1.1, nullptr), 3), ref::gate2(3, g2.a.data(), u0, u1), name(b2, 3, u0, u1, 0, -1.3, 1.1, ""), 1e-10);
                        continue;
                    }
                    const std::vector<ref::Ctl> c{{uc, y % 2 == 0}};
                    const auto                  cs = ctls(c);
                    expect(mat(make(*p, b2, 3, u0, u1, 0, -1.3, 1.1, &cs), 3), ref::gate2(3, g2.a.data(), u0, u1, c), name(b2, 3, u0, u1, 0, -1.3, 1.1, " controls " + str(c) + " after " + BN[b1]), 1e-10);
                }
                if (x == 3) {
                    p->garbageCollect(true);
                }
            }
        });
    }
    // every zero pattern of a 4x4 matrix with distinct entries, both target orders
    void zeroPatterns() {
        const unsigned hi = mc::choose(256, "high");
        const unsigned o  = mc::choose(2, "order");
        auto           p  = std::make_unique<Pkg<Mid>>(3);
        for (std::size_t lo = 0; lo < 256; ++lo) {
            const std::size_t mask = hi * 256 + lo;
            M                 m(4);
            for (std::size_t i = 0; i < 16; ++i) {
                if (((mask >> i) & 1U) != 0) {
                    m.a[i] = C{0.5 + static_cast<double>(i % 7), static_cast<double>(i % 3) - 1};
                }
            }
            const int  n  = lo % 16 == 0 ? 3 : 2;
            const int  t0 = o == 0 ? n - 1 : 0;
            const int  t1 = o == 0 ? 0 : n - 1;
            const auto e  = p->makeTwoQubitGateDD(tm(m), static_cast<dd::QubitCount>(n), static_cast<dd::Qubit>(t0), static_cast<dd::Qubit>(t1));
            expect(mat(e, n), ref::gate2(n, m.a.data(), t0, t1), "two-qubit gate with zero pattern " + std::to_string(mask) + " on " + std::to_string(t0) + "," + std::to_string(t1));
        }
        p->garbageCollect(true);
    }
    // large registers: all entries of the 4x4 block, background all zero / all one / alternating, no other qubit changes
    void wide() {
        const unsigned sizes[] = {8, 16, 33, 63, 64, 65, 100, 126, 127, 128};
        const unsigned total   = mc::pick(sizes, "qubits");
        const unsigned b       = mc::choose(NB, "builder");
        const unsigned start   = mc::choose(2, "offset") == 0 ? 0 : total / 3;
        const auto     n       = static_cast<int>(total - start);
        auto           p       = std::make_unique<Pkg<Mid>>(total);
        const int      pts[]   = {0, 1, n / 2, n - 2, n - 1};
        const M        g       = textbook(b, 0.7, 0.4);
        for (const int t0: pts) {
            for (const int t1: pts) {
                if (t0 == t1) {
                    continue;
                }
                for (int cm = 0; cm < (b == 13 ? 1 : 3); ++cm) {
                    std::vector<ref::Ctl> c;
                    if (cm == 1) {
                        for (const int q: {n / 3, n - 3}) {
                            if (q != t0 && q != t1) {
                                c.push_back({q, q == n / 3});
                            }
                        }
                    } else if (cm == 2) {
                        for (int q = 0; q < n; ++q) {
                            if (q != t0 && q != t1) {
                                c.push_back({q, q % 2 == 0});
                            }
                        }
                    }
                    auto abs = c;
                    for (auto& x: abs) {
                        x.q += static_cast<int>(start);
                    }
                    const auto cs = ctls(abs);
                    const auto e  = make(*p, b, n, t0, t1, static_cast<int>(start), 0.7, 0.4, cm == 0 ? nullptr : &cs);
                    const auto nm = name(b, n, t0, t1, static_cast<int>(start), 0.7, 0.4, cm == 0 ? "" : " controls " + str(c));
                    for (int bg = 0; bg < 3; ++bg) {
                        std::vector<int> col(static_cast<std::size_t>(n));
                        for (int q = 0; q < n; ++q) {
                            col[static_cast<std::size_t>(q)] = (q + bg) % 2;
                        }
                        for (const auto& k: c) {
                            col[static_cast<std::size_t>(k.q)] = k.pos ? 1 : 0;
                        }
                        bool act = true;
                        if (bg == 2 && !c.empty()) {
                            col[static_cast<std::size_t>(c[c.size() / 2].q)] ^= 1;
                            act = false;
                        }
                        for (std::size_t i = 0; i < 4; ++i) {
                            for (std::size_t o = 0; o < 4; ++o) {
                                auto row                          = col;
                                col[static_cast<std::size_t>(t0)] = static_cast<int>(i >> 1);
                                col[static_cast<std::size_t>(t1)] = static_cast<int>(i & 1);
                                row[static_cast<std::size_t>(t0)] = static_cast<int>(o >> 1);
                                row[static_cast<std::size_t>(t1)] = static_cast<int>(o & 1);
                                C   wgt = val(e.w);
                                int lvl = static_cast<int>(start) + n - 1;
                                auto x  = e;
                                for (; !x.isTerminal(); --lvl) {
                                    MC_CHECK(x.p->v == lvl, nm << ": level " << lvl << " is missing");
                                    const auto q = static_cast<std::size_t>(lvl - static_cast<int>(start));
                                    x            = x.p->e[static_cast<std::size_t>(2 * row[q] + col[q])];
                                    wgt          = ref::cmul(wgt, val(x.w));
                                }
                                MC_CHECK(wgt == (C{0, 0}) || lvl == static_cast<int>(start) - 1, nm << ": ends at level " << lvl);
                                const C want = act ? g(o, i) : C{o == i ? 1. : 0., 0};
                                mc::op();
                                mc::state(mc::mix(mc::mix(total, b), mc::mix(static_cast<std::uint64_t>(t0 * 200 + t1), static_cast<std::uint64_t>(bg * 16) + i * 4 + o)));
                                MC_CHECK(ref::close(wgt, want, 1e-9), nm << ": block entry (" << o << "," << i << ") with controls " << (act ? "" : "not ") << "satisfied is " << ref::str(wgt) << ", expected " << ref::str(want));
                            }
                        }
                    }
                    mc::alive();
                }
            }
        }
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C06", argc, argv,
                   {{"builders-x-targets-x-controls", 6, false, builders},
                    {"sequences-of-builders", 2, false, sequences},
                    {"zero-patterns", 2, false, zeroPatterns},
                    {"wide-registers", 2, false, wide}},
                   {"14 builders x all ordered target pairs x all control assignments x up to 10 angles (3 betas) x offsets 0-2 for 2-4 (thorough 6) qubits; ordered pairs of builders on 3 qubits; all 2^16 zero patterns of a 4x4 matrix x both target orders; registers up to 128 qubits; small and normal tables; fresh, used and collected packages",
                    {"angles are taken from a finite set", "textbook matrices written independently in the harness"}});
}
