// C15: measuring all qubits follows the Born rule, for every state and every choice of the draws.
#include "ddx.hpp"
#include "draws.hpp"
using namespace ddx;
namespace {
    const std::vector<C> A6{{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0.6, -0.8}, {0.01, 0}};
    V unit(const V& v) { return ref::scale(v, C{1. / std::sqrt(ref::norm2(v)), 0}); }
    // Walk down all outcomes: at every qubit take each possible position of the draw relative to the probability
    // of zero. `pos` enumerates the positions; 0: draw 0, 1: just below, 2: just above, 3: largest draw.
    struct Walk {
        std::vector<double> u;
        std::size_t         outcome = 0;
        bool                ok      = true; // position exists
    };
    Walk walk(const V& v, int n, std::size_t code) {
        Walk        w;
        std::size_t hi   = 0;
        double      mass = ref::norm2(v);
        for (int q = n - 1; q >= 0; --q) {
            double m0 = 0;
            for (std::size_t i = 0; i < (1ULL << q); ++i) {
                m0 += std::norm(v[hi | i]);
            }
            const double p0  = m0 / mass;
            const auto   pos = code & 3U;
            code >>= 2U;
            double u = 0;
            bool   b = false;
            switch (pos) {
                case 0:
                    u = 0;
                    b = p0 < 1e-15;
                    w.ok = w.ok && (p0 == 0 || p0 > 1e-9);
                    break;
                case 1:
                    u    = p0 - 1e-9;
                    b    = false;
                    w.ok = w.ok && p0 > 1e-8;
                    break;
                case 2:
                    u    = p0 + 1e-9;
                    b    = true;
                    w.ok = w.ok && p0 < 1 - 1e-8;
                    break;
                default:
                    u    = 1;
                    b    = p0 < 1 - 1e-15;
                    w.ok = w.ok && (m0 == mass || p0 < 1 - 1e-9);
                    break;
            }
            w.u.push_back(u);
            if (b) {
                hi |= 1ULL << q;
                mass -= m0;
            } else {
                mass = m0;
            }
        }
        w.outcome = hi;
        return w;
    }
    std::string bits(std::size_t i, int n) {
        std::string s;
        for (int q = n - 1; q >= 0; --q) {
            s += ((i >> q) & 1U) != 0 ? '1' : '0';
        }
        return s;
    }
    template<class P>
    void collapseOnce(P& p, const V& v, int n, const Walk& w, C phase, bool keepRef) {
        const auto      N = v.size();
        auto            e = scaled(p, p.makeStateFromVector(cvec(v)), phase);
        const auto      old = e;
        std::mt19937_64 g;
        p.incRef(e);
        if (keepRef) {
            p.incRef(e);
        }
        // without collapsing
        draws::set(g, w.u);
        auto s = p.measureAll(e, false, g);
        mc::op();
        MC_CHECK(s == bits(w.outcome, n), "measuring " << ref::str(v) << " with these draws returned " << s << ", expected " << bits(w.outcome, n));
        MC_CHECK(e.p == old.p && e.w == old.w, "measuring without collapsing changed the state");
        expect(vec(e, n), ref::scale(v, phase), "state after measuring without collapsing");
        // with collapsing
        draws::set(g, w.u);
        s = p.measureAll(e, true, g);
        MC_CHECK(s == bits(w.outcome, n), "measuring " << ref::str(v) << " with collapse returned " << s << ", expected " << bits(w.outcome, n));
        V x(N);
        x[w.outcome] = 1;
        expect(vec(e, n), x, "collapsed state");
        if (keepRef) {
            expect(vec(old, n), ref::scale(v, phase), "another reference to the measured state");
            p.garbageCollect(true);
            expect(vec(old, n), ref::scale(v, phase), "another reference to the measured state after a collection");
            p.decRef(old);
        }
        // the reference moved: exactly the basis state is referenced now
        p.garbageCollect(true);
        expect(vec(e, n), x, "collapsed state after a collection");
        MC_CHECK(e == p.makeBasisState(static_cast<dd::QubitCount>(n), [&] { std::vector<bool> b; for (int q = 0; q < n; ++q) { b.push_back(((w.outcome >> q) & 1U) != 0); } return b; }()), "collapsed state is not the diagram of the basis state");
        p.decRef(e);
    }
    template<class P>
    void all(P& p, const V& v, int n, C phase, std::size_t actives) {
        for (std::size_t code = 0; code < (1ULL << (2 * n)); ++code) {
            const auto w = walk(v, n, code);
            if (w.ok) {
                mc::state(mc::mix(ref::hash(v), w.outcome));
                collapseOnce(p, v, n, w, phase, (code & 1U) != 0);
                MC_CHECK(p.vUniqueTable.getActiveNodeCount() == actives, "after releasing the collapsed state " << p.vUniqueTable.getActiveNodeCount() << " state nodes are still active instead of " << actives);
                mc::alive();
            }
        }
    }
    const C PH[] = {{1, 0}, {-1, 0}, {0, 1}, {0.6, -0.8}};
    void smallStates() {
        const unsigned n    = 1 + mc::choose(2, "n-1");
        const unsigned cfg  = mc::choose(2, "cfg");
        const unsigned w    = mc::choose(4, "env");
        const unsigned part = mc::choose(n == 1 ? 6 : 36, "part");
        if (!draws::selftest()) {
            mc::fail("harness error: the generator is not controlled");
        }
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(n + w / 2);
            const auto ni = static_cast<int>(n);
            warm(*p, ni, w);
            const auto base = p->vUniqueTable.getActiveNodeCount();
            const auto tot  = ipow(6, 1ULL << n);
            for (std::size_t c = part; c < tot; c += n == 1 ? 6 : 36) {
                const auto v = vecFrom(c, ni, A6);
                if (ref::norm2(v) == 0) {
                    continue;
                }
                all(*p, unit(v), ni, PH[c / 36 % 4], base);
            }
        });
    }
    void patterns() {
        const unsigned n   = 3 + mc::choose(mc::thorough() ? 3 : 2, "n-3");
        const unsigned pv  = mc::choose(NVP, "pattern");
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned w   = mc::choose(2, "env") * 3;
        if (pv == 12) {
            mc::prune();
        }
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(n);
            const auto ni = static_cast<int>(n);
            warm(*p, ni, w);
            all(*p, unit(vecPat(ni, pv)), ni, PH[pv % 4], p->vUniqueTable.getActiveNodeCount());
        });
    }
    // several measurements in a row on copies of one state, interleaved with other operations
    void sequences() {
        const unsigned cfg = mc::choose(2, "cfg");
        const unsigned pv  = mc::choose(NVP, "pattern");
        if (pv == 12) {
            mc::prune();
        }
        withCfg(cfg, [&](auto t) {
            using P = Pkg<typename decltype(t)::type>;
            constexpr int n = 2;
            auto          p = std::make_unique<P>(n);
            const auto    v = unit(vecPat(n, pv));
            const auto    e = p->makeStateFromVector(cvec(v));
            p->incRef(e);
            const unsigned depth = mc::thorough() ? 4 : 3;
            for (unsigned d = 0; d < depth; ++d) {
                const unsigned k = mc::choose(4, "outcome");
                // draws that select outcome k if it is possible
                std::vector<double> u{(k & 2U) != 0 ? 1. : 0., (k & 1U) != 0 ? 1. : 0.};
                const double        p1 = std::norm(v[2]) + std::norm(v[3]);
                const bool          h  = (k & 2U) != 0 ? p1 > 1e-9 : p1 > 1 - 1e-9;
                const double        q0 = std::norm(v[h ? 2 : 0]);
                const double        q1 = std::norm(v[h ? 3 : 1]);
                const bool          l  = (k & 1U) != 0 ? q1 > 1e-9 : q0 < 1e-9;
                auto                x  = e;
                p->incRef(x);
                std::mt19937_64 g;
                draws::set(g, u);
                const auto s    = p->measureAll(x, d % 2 == 0, g);
                const auto want = std::string(h ? "1" : "0") + (l ? "1" : "0");
                mc::op();
                mc::state(mc::mix(ref::hash(v), k));
                MC_CHECK(s == want, "measurement " << d << " returned " << s << ", expected " << want);
                expect(vec(e, n), v, "the original state");
                const auto y = p->multiply(p->makeGateDD(dd::Hmat, n, static_cast<dd::Qubit>(d % 2)), x);
                (void)y;
                p->decRef(x);
                if (mc::choose(2, "collect") == 1) {
                    p->garbageCollect(true);
                }
                expect(vec(e, n), v, "the original state");
            }
            p->decRef(e);
            p->garbageCollect(true);
            MC_CHECK(p->vUniqueTable.getNodeCount() == 0, "state nodes remain after everything was released");
        });
    }
    // states that are not normalised
    void notNormalised() {
        const unsigned n  = 1 + mc::choose(3, "n-1");
        const unsigned pv = mc::choose(NVP, "pattern");
        const unsigned f  = mc::choose(6, "factor");
        const double   F[] = {0, 0.5, 1.4, 0.9, 1.0002, 3};
        if (pv == 12 && f != 0) {
            mc::prune();
        }
        auto            p  = std::make_unique<Pkg<Mid>>(n);
        const auto      ni = static_cast<int>(n);
        std::mt19937_64 g;
        const V         v = pv == 12 ? V(1ULL << n) : unit(vecPat(ni, pv));
        auto            e = scaled(*p, p->makeStateFromVector(cvec(v)), C{F[f], 0});
        p->incRef(e);
        const auto old = e;
        bool       threw = false;
        std::ostringstream os;
        auto*              oldBuf = std::cerr.rdbuf(os.rdbuf());
        std::string        s;
        draws::set(g, {}, 1.);
        try {
            s = p->measureAll(e, false, g);
        } catch (const std::runtime_error&) {
            threw = true;
        } catch (...) {
            std::cerr.rdbuf(oldBuf);
            throw;
        }
        std::cerr.rdbuf(oldBuf);
        mc::op();
        mc::state(mc::mix(ref::hash(v), f));
        MC_CHECK(threw == (F[f] == 0), "measuring a state of norm " << F[f] << (threw ? " raises an exception" : " raises no exception"));
        MC_CHECK(e.p == old.p && e.w == old.w, "the state changed");
        if (!threw) {
            const bool off = std::abs(F[f] * F[f] - 1) > 0.001;
            MC_CHECK((os.str().find("WARNING") != std::string::npos) == off, "state of norm " << F[f] << " is" << (off ? " not" : "") << " reported");
            // all draws are the largest: the last possible outcome at every qubit
            std::size_t hi = 0;
            for (int q = ni - 1; q >= 0; --q) {
                double m1 = 0;
                for (std::size_t i = 0; i < (1ULL << q); ++i) {
                    m1 += std::norm(v[hi | (1ULL << q) | i]);
                }
                if (m1 > 1e-12) {
                    hi |= 1ULL << q;
                }
            }
            MC_CHECK(s == bits(hi, ni), "largest draws return " << s << ", expected " << bits(hi, ni));
        }
        // a node whose successors do not have probability one
        dd::vNode raw{};
        raw.v    = 0;
        raw.e[0] = {dd::vNode::terminal, p->cn.lookup(0.9, 0.)};
        raw.e[1] = {dd::vNode::terminal, p->cn.lookup(0.9, 0.)};
        dd::vEdge r{&raw, dd::Complex::one};
        threw = false;
        try {
            p->measureAll(r, false, g);
        } catch (const std::runtime_error&) {
            threw = true;
        }
        MC_CHECK(threw, "a node with outgoing probability 1.62 is accepted");
        MC_CHECK(p->measureAll(r, false, g, 0.7) == "1", "a node within the given epsilon is not accepted");
    }
    void wide() {
        const unsigned sizes[] = {8, 16, 31, 32, 63, 64, 65, 100, 127, 128};
        const unsigned n       = mc::pick(sizes, "qubits");
        const unsigned kind    = mc::choose(3, "state");
        const unsigned cfg     = mc::choose(2, "cfg");
        withCfg(cfg, [&](auto t) {
            using P       = Pkg<typename decltype(t)::type>;
            auto       p  = std::make_unique<P>(n);
            const auto nq = static_cast<dd::QubitCount>(n);
            dd::vEdge  e;
            for (unsigned pat = 0; pat < 5; ++pat) {
                std::vector<double> u;
                std::string         want(n, '0');
                if (kind == 0) { // GHZ: 1/sqrt2 (|0..0> + i |1..1>)
                    const auto z = p->makeZeroState(nq);
                    const auto o = p->makeBasisState(nq, std::vector<bool>(n, true));
                    e            = p->add(scaled(*p, z, C{S2, 0}), scaled(*p, o, C{0, S2}));
                    for (unsigned k = 0; k < n; ++k) {
                        u.push_back(pat % 2 == 0 ? 0.49 : 0.51);
                    }
                    if (pat >= 2) {
                        std::fill(u.begin() + 1, u.end(), pat == 2 ? 0. : 1.);
                    }
                    want.assign(n, u[0] > 0.5 ? '1' : '0');
                } else if (kind == 1) { // |+> / |left> everywhere
                    std::vector<dd::BasisStates> b;
                    for (unsigned q = 0; q < n; ++q) {
                        b.push_back(q % 2 == 0 ? dd::BasisStates::plus : dd::BasisStates::left);
                    }
                    e = p->makeBasisState(nq, b);
                    for (unsigned k = 0; k < n; ++k) {
                        const bool one = ((k * 5 + pat) % 3) == 1;
                        u.push_back(one ? 0.500001 : 0.499999);
                        want[k] = one ? '1' : '0'; // first draw decides the top qubit
                    }
                } else { // basis state: the draws must not matter
                    std::vector<bool> b;
                    for (unsigned q = 0; q < n; ++q) {
                        b.push_back((q * 7 + pat) % 4 == 1);
                        want[n - 1 - q] = b.back() ? '1' : '0';
                        u.push_back(q % 2 == 0 ? 0 : 1);
                    }
                    e = p->makeBasisState(nq, b);
                }
                p->incRef(e);
                std::mt19937_64 g;
                draws::set(g, u);
                auto s = p->measureAll(e, false, g);
                mc::op();
                mc::state(mc::mix(mc::mix(n, kind), pat));
                MC_CHECK(s == want, "measuring " << n << " qubits returned " << s << ", expected " << want);
                draws::set(g, u);
                s = p->measureAll(e, true, g);
                MC_CHECK(s == want, "measuring " << n << " qubits with collapse returned " << s << ", expected " << want);
                const std::string path(want.rbegin(), want.rend());
                MC_CHECK(ref::close(cv(p->getValueByPath(e, path)), C{1, 0}), "collapsed state on " << n << " qubits has not amplitude one at " << want);
                MC_CHECK(p->vUniqueTable.getActiveNodeCount() == n, "collapsed state on " << n << " qubits has " << p->vUniqueTable.getActiveNodeCount() << " active nodes");
                p->decRef(e);
                p->garbageCollect(true);
                MC_CHECK(p->vUniqueTable.getNodeCount() == 0, "nodes remain after releasing the collapsed state");
            }
        });
    }
} // namespace
int main(int argc, char** argv) {
    return mc::run("C15", argc, argv,
                   {{"small-states", 4, false, smallStates},
                    {"patterns", 4, false, patterns},
                    {"sequences", 3, false, sequences},
                    {"not-normalised", 3, false, notNormalised},
                    {"wide-registers", 3, false, wide}},
                   {"all 1- and 2-qubit states with amplitudes over 6 letters in four package conditions, 14 patterns up to 4 (5) qubits; for each every combination of draw positions (0, just below, just above, largest) at every qubit, with and without collapse, with and without another reference; all outcome sequences of 3 (4) measurements with optional collections; six norms; registers up to 128 qubits",
                    {"draws exactly equal to a rounded probability are not decided", "the generator is controlled through its state"}});
}
