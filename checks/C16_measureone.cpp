// C16: measuring one qubit follows the Born rule, for every state, qubit and position of the draw.
#include "ddx.hpp"
#include "draws.hpp"
using namespace ddx;
namespace {
    const std::vector<C> A6{{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0.6, -0.8}, {0.01, 0}};
    const C              PH[] = {{1, 0}, {-1, 0}, {0, 1}, {0.6, -0.8}};
    V                    unit(const V& v) { return ref::scale(v, C{1. / std::sqrt(ref::norm2(v)), 0}); }
    double               prob(const V& v, int q, bool one) {
        double s = 0;
        for (std::size_t i = 0; i < v.size(); ++i) {
            s += (((i >> q) & 1U) != 0) == one ? std::norm(v[i]) : 0;
        }
        return s;
    }
    V project(const V& v, int q, bool one) {
        V x(v);
        for (std::size_t i = 0; i < v.size(); ++i) {
            if ((((i >> q) & 1U) != 0) != one) {
                x[i] = 0;
            }
        }
        return x;
    }
    // positions of the draw: smallest, just below the probability of zero, just above, largest.
    // Returns false if the position does not exist (or is too close to a rounded threshold to be decided).
    bool position(unsigned pos, double p0, double& u, bool& one) {
        switch (pos) {
            case 0:
                u   = 0;
                one = p0 < 1e-15;
                return p0 == 0 || p0 > 1e-9;
            case 1:
                u   = p0 - 1e-9;
                one = false;
                return p0 > 1e-8;
            case 2:
                u   = p0 + 1e-9;
                one = true;
                return p0 < 1 - 1e-8;
            default:
                u   = 1;
                one = p0 < 1 - 1e-15;
                return p0 > 1 - 1e-13 || p0 < 1 - 1e-9;
        }
    }
    // measure qubit q of the referenced diagram e (value x); x becomes the collapsed value. false: position absent
    template<class P>
    bool measure(P& p, dd::vEdge& e, V& x, int n, int q, bool assume, unsigned pos, const std::string& what) {
        double     u   = 0;
        bool       one = false;
        const auto p0  = prob(x, q, false);
        const auto p1  = prob(x, q, true);
        if (p1 < 1e-13) {
            if (pos == 2) {
                return false;
            }
        }
        if (!position(pos, p0 > 1 - 1e-13 ? 1. : p0, u, one)) {
            return false;
        }
        const auto [a, b] = p.determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q), assume);
        MC_CHECK(std::abs(a - p0) < 1e-9 && std::abs(b - p1) < 1e-9, what << ": probabilities of qubit " << q << " of " << ref::str(x) << " reported as " << a << " and " << b << ", expected " << p0 << " and " << p1);
        NoLeak<P>       nl(p);
        std::mt19937_64 g;
        draws::set(g, {u}, one ? 0. : 1.);
        const char r = p.measureOneCollapsing(e, static_cast<dd::Qubit>(q), assume, g);
        MC_CHECK(r == (one ? '1' : '0'), what << ": measuring qubit " << q << " of " << ref::str(x) << " with draw " << u << " returned '" << r << "'");
        nl.check(what + ": measurement");
        x = unit(project(x, q, one));
        expect(vec(e, n), x, what + ": state after measuring qubit " + std::to_string(q) + " as " + r);
        return true;
    }
    template<class P>
    void one(P& p, const V& v, int n, int q, bool assume, unsigned pos, C phase, unsigned refs, std::size_t actives) {
        auto e = scaled(p, p.makeStateFromVector(cvec(v)), phase);
        V    x = ref::scale(v, phase);
        p.incRef(e);
        const auto old = e;
        const V    ox  = x;
        if (refs == 1) {
            p.incRef(e);
        }
        const bool did = measure(p, e, x, n, q, assume, pos, assume ? "measurement" : "measurement without assuming normalisation");
        if (refs == 1) {
            expect(vec(old, n), ox, "another reference to the measured state");
            p.garbageCollect(true);
            expect(vec(old, n), ox, "another reference to the measured state after a collection");
            p.decRef(old);
        }
        if (did) {
            p.garbageCollect(true);
            expect(vec(e, n), x, "collapsed state after a collection");
            MC_CHECK(p.vUniqueTable.getActiveNodeCount() == actives + p.size(e) - 1 || actives != 0, "after the measurement " << p.vUniqueTable.getActiveNodeCount() << " state nodes are active, the collapsed state has " << p.size(e) - 1);
        }
        p.decRef(e);
        MC_CHECK(p.vUniqueTable.getActiveNodeCount() == actives, "after releasing the collapsed state " << p.vUniqueTable.getActiveNodeCount() << " state nodes are still active instead of " << actives);
        mc::alive();
    }
    void smallStates() {
        const unsigned n    = 1 + mc::choose(2, "n-1");
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned w    = mc::choose(4, "env");
        const unsigned part = mc::choose(n == 1 ? 6 : 36, "part");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(n + w / 2);
            const auto ni = static_cast<int>(n);
            warm(*p, ni, w);
            const auto base = p->vUniqueTable.getActiveNodeCount();
            const auto tot  = ipow(6, 1ULL << n);
            std::size_t k   = 0;
            for (std::size_t c = part; c < tot; c += n == 1 ? 6 : 36) {
                const auto r = vecFrom(c, ni, A6);
                if (ref::norm2(r) == 0) {
                    continue;
                }
                const auto v = unit(r);
                mc::state(ref::hash(v));
                for (int q = 0; q < ni; ++q) {
                    for (unsigned m = 0; m < 8; ++m) {
                        one(*p, v, ni, q, (m & 1U) != 0, m >> 1U, PH[c / 36 % 4], ++k & 1U, base);
                    }
                }
            }
        });
    }
    void patterns() {
        const unsigned n   = 3 + mc::choose(mc::thorough() ? 4 : 3, "n-3");
        const unsigned pv  = mc::choose(NVP, "pattern");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(4, "env");
        if (pv == 12) {
            mc::prune();
        }
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(n);
            const auto ni = static_cast<int>(n);
            warm(*p, ni, w);
            const auto base = p->vUniqueTable.getActiveNodeCount();
            const auto v    = unit(vecPat(ni, pv));
            for (int q = 0; q < ni; ++q) {
                for (unsigned m = 0; m < 32; ++m) {
                    one(*p, v, ni, q, (m & 1U) != 0, (m >> 1U) & 3U, PH[m >> 3U], (m ^ (m >> 1U)) & 1U, base);
                }
            }
        });
    }
    // sequences of measurements on one state, optionally with collections and gates in between
    void sequences() {
        const unsigned pv  = mc::choose(NVP, "pattern");
        const unsigned cfg = mc::choose(2, "cfg");
        if (pv == 12) {
            mc::prune();
        }
        withCfg(cfg, [&](auto t) {
            using P         = Pkg<typename decltype(t)::type>;
            constexpr int n = 3;
            auto          p = std::make_unique<P>(n);
            V             x = unit(vecPat(n, pv));
            auto          e = p->makeStateFromVector(cvec(x));
            p->incRef(e);
            const unsigned depth = mc::thorough() ? 4 : 3;
            for (unsigned d = 0; d < depth; ++d) {
                const auto q      = static_cast<int>(mc::choose(n, "qubit"));
                const auto high   = mc::choose(2, "draw");
                const auto assume = mc::choose(2, "assume") == 1;
                const auto mid    = d + 1 == depth ? 0 : d == 0 || mc::thorough() ? mc::choose(3, "between") : static_cast<unsigned>(q);
                if (!measure(*p, e, x, n, q, assume, high * 3, "measurement " + std::to_string(d))) {
                    mc::prune();
                }
                const auto [a, b] = p->determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q), assume);
                MC_CHECK(std::abs(std::max(a, b) - 1) < 1e-9 && std::min(a, b) < 1e-9, "qubit " << q << " does not keep its measured value");
                if (mid == 1) {
                    p->garbageCollect(true);
                } else if (mid == 2) {
                    const C    h[] = {S2, S2, S2, -S2};
                    const auto f   = p->multiply(p->makeGateDD(dd::Hmat, n, static_cast<dd::Qubit>((q + 1) % n)), e);
                    p->incRef(f);
                    p->decRef(e);
                    e = f;
                    x = ref::mul(ref::gate(n, h, (q + 1) % n), x);
                }
            }
            expect(vec(e, n), x, "state at the end");
            p->decRef(e);
            p->garbageCollect(true);
            MC_CHECK(p->vUniqueTable.getNodeCount() == 0, "state nodes remain after everything was released");
        });
    }
    // nodes whose successors are not normalised, put into the table as they are
    void raw() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned n   = 2 + mc::choose(2, "n-2");
        const unsigned a   = mc::choose(6, "left"); // kind of the lower structures
        const unsigned b   = mc::choose(6, "right");
        const unsigned q   = mc::choose(n, "qubit");
        withCfg(cfg, [&](auto t) {
            using P      = Pkg<typename decltype(t)::type>;
            auto p       = std::make_unique<P>(n);
            using Ed     = dd::vEdge;
            const C K[6][2] = {{1, 1}, {0.5, 0}, {0, C{0, 0.5}}, {0.6, 0.8}, {C{0, 2}, -1}, {0.1, 0.3}};
            const auto mk = [&](int v, const Ed& l, C lw, const Ed& r, C rw) {
                auto* q_ = p->vUniqueTable.getNode();
                q_->v    = static_cast<dd::Qubit>(v);
                q_->e[0] = scaled(*p, l, lw);
                q_->e[1] = scaled(*p, r, rw);
                return p->vUniqueTable.lookup(Ed{q_, dd::Complex::one}, false);
            };
            auto x = mk(0, Ed::one, K[a][0], Ed::one, K[a][1]);
            auto y = mk(0, Ed::one, K[b][0], Ed::one, K[b][1]);
            auto e = mk(1, x, 1, y, C{0.5, 0.5});
            if (n == 3) {
                const auto f = mk(1, y, C{0, -1}, x, 0);
                e            = mk(2, e, K[b][1], f, 1);
            }
            const auto v = vec(e, static_cast<int>(n));
            e            = scaled(*p, e, C{0, 1 / std::sqrt(ref::norm2(v))});
            const auto x0 = vec(e, static_cast<int>(n));
            if (std::abs(ref::norm2(x0) - 1) > 1e-10) {
                mc::fail("harness error: state is not normalised");
            }
            mc::state(ref::hash(x0));
            for (unsigned pos = 0; pos < 4; ++pos) {
                auto s  = e;
                V    xs = x0;
                p->incRef(s);
                (void)measure(*p, s, xs, static_cast<int>(n), static_cast<int>(q), false, pos, "measurement of a state with nodes that are not normalised");
                p->decRef(s);
            }
            MC_CHECK(p->vUniqueTable.getActiveNodeCount() == 0, "nodes stay active");
        });
    }
    // norms off by more than epsilon are refused and leave the state alone
    void norms() {
        const unsigned n  = 1 + mc::choose(3, "n-1");
        const unsigned pv = mc::choose(NVP, "pattern");
        const unsigned f  = mc::choose(8, "factor");
        const unsigned as = mc::choose(2, "assume");
        const unsigned ep = mc::choose(3, "epsilon");
        if (pv == 12) {
            mc::prune();
        }
        const double F[]  = {0.5, 1.4, 0.9, 0.9996, 1.0004, 0.9994, 1.0006, 3};
        const double EP[] = {0.001, 0.5, 1e-6};
        for (unsigned q = 0; q < n; ++q) {
            auto       p  = std::make_unique<Pkg<Mid>>(n);
            const auto ni = static_cast<int>(n);
            const V    v  = unit(vecPat(ni, pv));
            auto       e  = scaled(*p, p->makeStateFromVector(cvec(v)), C{0, F[f]});
            p->incRef(e);
            const auto      old = e;
            const auto      act = p->vUniqueTable.getActiveNodeCount();
            std::mt19937_64 g;
            draws::set(g, {}, 1.);
            bool threw = false;
            char r     = '?';
            const bool off = std::abs(F[f] * F[f] - 1) > EP[ep];
            const auto [a, b] = p->determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q), as == 1);
            MC_CHECK(std::abs(a + b - F[f] * F[f]) < 1e-9, "probabilities of a state of norm " << F[f] << " sum to " << a + b);
            try {
                r = ep == 0 ? p->measureOneCollapsing(e, static_cast<dd::Qubit>(q), as == 1, g) : p->measureOneCollapsing(e, static_cast<dd::Qubit>(q), as == 1, g, EP[ep]);
            } catch (const std::runtime_error&) {
                threw = true;
            }
            mc::op();
            mc::state(mc::mix(mc::mix(ref::hash(v), f), q));
            MC_CHECK(threw == off, "measuring a state of squared norm " << F[f] * F[f] << " with tolerance " << EP[ep] << (threw ? " raises an exception" : " raises no exception"));
            if (threw) {
                MC_CHECK(e.p == old.p && e.w == old.w && p->vUniqueTable.getActiveNodeCount() == act, "a refused measurement changed the state");
                expect(vec(e, ni), ref::scale(v, C{0, F[f]}), "state after a refused measurement");
            } else {
                const bool one = prob(v, static_cast<int>(q), true) > 1e-12;
                MC_CHECK(r == (one ? '1' : '0'), "largest draw returns '" << r << "'");
                const V x = unit(project(v, static_cast<int>(q), one));
                const V y = vec(e, ni);
                // within the tolerance the collapsed state has norm one
                MC_CHECK(std::abs(ref::norm2(y) - 1) < 1e-9 || std::abs(ref::norm2(y) - F[f] * F[f]) < 1e-9, "collapsed state has squared norm " << ref::norm2(y));
                expect(C{std::norm(ref::inner(x, y)), 0}, C{ref::norm2(y), 0}, "direction of the collapsed state");
            }
            p->decRef(e);
            MC_CHECK(p->vUniqueTable.getActiveNodeCount() == 0, "nodes stay active");
        }
    }
    void wide() {
        const unsigned sizes[] = {8, 31, 32, 33, 63, 64, 65, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned kind    = mc::choose(4, "state");
        const unsigned cfg     = mc::choose(2, "cfg");
        const unsigned assume  = mc::choose(2, "assume");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(n);
            const auto nq = static_cast<dd::QubitCount>(n);
            const unsigned qs[] = {0, 1, n / 2, n - 2, n - 1};
            for (const unsigned q: qs) {
                for (unsigned pos = 0; pos < 4; ++pos) {
                    dd::vEdge                e;
                    double                   p0 = 0;
                    std::vector<std::string> paths[2]; // paths of equal weight by outcome
                    std::vector<C>           amp[2];
                    if (kind == 0) { // GHZ with unequal weights
                        const auto z = p->makeZeroState(nq);
                        const auto o = p->makeBasisState(nq, std::vector<bool>(n, true));
                        e            = p->add(scaled(*p, z, C{0.6, 0}), scaled(*p, o, C{0, 0.8}));
                        p0           = 0.36;
                        paths[0]     = {std::string(n, '0')};
                        amp[0]       = {C{1, 0}};
                        paths[1]     = {std::string(n, '1')};
                        amp[1]       = {C{0, 1}};
                    } else if (kind == 1) { // basis states
                        std::vector<bool> b;
                        std::string       s;
                        for (unsigned k = 0; k < n; ++k) {
                            b.push_back(k % 3 == 1);
                            s += b.back() ? '1' : '0';
                        }
                        e                   = p->makeBasisState(nq, b);
                        p0                  = b[q] ? 0 : 1;
                        paths[b[q] ? 1 : 0] = {s};
                        amp[b[q] ? 1 : 0]   = {C{1, 0}};
                    } else if (kind == 2) { // W state
                        e = dd::vEdge::zero;
                        for (unsigned k = 0; k < n; ++k) {
                            std::vector<bool> b(n);
                            b[k]         = true;
                            const auto x = scaled(*p, p->makeBasisState(nq, b), C{1 / std::sqrt(static_cast<double>(n)), 0});
                            e            = k == 0 ? x : p->add(e, x);
                        }
                        p0 = 1 - 1. / n;
                        std::string s(n, '0');
                        s[q]     = '1';
                        paths[1] = {s};
                        amp[1]   = {C{1, 0}};
                        s[q]     = '0';
                        for (const unsigned k: {q == 0 ? 1U : 0U, q == n - 1 ? n - 2 : n - 1}) {
                            auto r = s;
                            r[k]   = '1';
                            paths[0].push_back(r);
                            amp[0].push_back(C{1 / std::sqrt(n - 1.), 0});
                        }
                        paths[0].push_back(s);
                        amp[0].push_back(0);
                    } else { // all left except for a plus at q, on few qubits of superposition (amplitudes stay in range)
                        std::vector<dd::BasisStates> b;
                        std::string                  s(n, '0');
                        for (unsigned k = 0; k < n; ++k) {
                            const bool super = k == q || k % 16 == 3;
                            b.push_back(super ? (k == q ? dd::BasisStates::minus : dd::BasisStates::left) : (k % 2 == 0 ? dd::BasisStates::one : dd::BasisStates::zero));
                            if (!super && k % 2 == 0) {
                                s[k] = '1';
                            }
                        }
                        e  = p->makeBasisState(nq, b);
                        p0 = 0.5;
                        unsigned m = 0;
                        for (unsigned k = 0; k < n; ++k) {
                            m += k != q && k % 16 == 3 ? 1 : 0;
                        }
                        paths[0] = {s};
                        s[q]     = '1';
                        paths[1] = {s};
                        amp[0]   = {C{std::pow(S2, m), 0}};
                        amp[1]   = {C{-std::pow(S2, m), 0}};
                    }
                    p->incRef(e);
                    double u   = 0;
                    bool   one = false;
                    if (position(pos, p0, u, one)) {
                        const auto [a, b] = p->determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q), assume == 1);
                        MC_CHECK(std::abs(a - p0) < 1e-9 && std::abs(b - 1 + p0) < 1e-9, "probabilities of qubit " << q << " of " << n << " reported as " << a << ", " << b << "; expected " << p0);
                        std::mt19937_64 g;
                        draws::set(g, {u}, one ? 0. : 1.);
                        const char r = p->measureOneCollapsing(e, static_cast<dd::Qubit>(q), assume == 1, g);
                        mc::op();
                        mc::state(mc::mix(mc::mix(n, kind), q * 4 + pos));
                        MC_CHECK(r == (one ? '1' : '0'), "measuring qubit " << q << " of " << n << " returned " << r);
                        const auto o = one ? 1 : 0;
                        for (std::size_t k = 0; k < paths[o].size(); ++k) {
                            expect(cv(p->getValueByPath(e, paths[o][k])), amp[o][k], "amplitude after measuring qubit " + std::to_string(q) + " of " + std::to_string(n));
                        }
                        for (const auto& s: paths[1 - o]) {
                            auto z = s;
                            if (z[q] == '0' + o) {
                                continue;
                            }
                            expect(cv(p->getValueByPath(e, z)), C{0, 0}, "amplitude of the other outcome");
                        }
                        const auto [c, d] = p->determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q), assume == 1);
                        MC_CHECK(std::abs((one ? d : c) - 1) < 1e-9, "the collapsed state on " << n << " qubits is not normalised or not collapsed");
                        MC_CHECK(p->vUniqueTable.getActiveNodeCount() == p->size(e) - 1, "the state before the measurement is still referenced");
                    }
                    p->decRef(e);
                    p->garbageCollect(true);
                    MC_CHECK(p->vUniqueTable.getNodeCount() == 0, "nodes remain after releasing the collapsed state");
                    mc::alive();
                }
            }
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C16", argc, argv,
                   {{"small-states", 4, false, smallStates},
                    {"patterns", 4, false, patterns},
                    {"sequences", 4, false, sequences},
                    {"not-normalised-nodes", 3, false, raw},
                    {"norms", 4, false, norms},
                    {"wide-registers", 4, false, wide}},
                   {"all 1- and 2-qubit states with amplitudes over 6 letters in four package conditions, 13 patterns of 3 to 5 (6) qubits with four phases; every qubit, every draw position (0, just below, just above, largest), both probability modes, with and without another reference; all sequences of 3 (4) measurements on 3 qubits with collections or gates in between (quick: enumerated after the first); hand-built nodes that are not normalised; eight norms and three tolerances; four families up to 128 qubits",
                    {"draws exactly equal to a rounded probability are not decided", "the generator is controlled through its state"}});
}
